/* Fuzz target: statements and table files of any content on a small database.
 * Input: items separated by 0x1e, the first byte of each tells what it is. */
#include "fuzzutil.h"

static LibmsiQuery *kept[4];
static int nkept;

static void fetch_rows (LibmsiQuery *q, int max)
{
    LibmsiRecord *row;
    for (int n = 0; n < max && (row = libmsi_query_fetch (q, NULL)); n++) {
        for (guint i = 0; i <= libmsi_record_get_field_count (row); i++) {
            libmsi_record_get_int (row, i);
            g_free (libmsi_record_get_string (row, i));
            drain (libmsi_record_get_stream (row, i));
        }
        g_object_unref (row);
    }
}

static void describe (LibmsiQuery *q)
{
    LibmsiRecord *row;
    for (int i = 0; i < 2; i++) {
        row = libmsi_query_get_column_info (q, i ? LIBMSI_COL_INFO_TYPES : LIBMSI_COL_INFO_NAMES, NULL);
        for (guint j = 0; row && j <= libmsi_record_get_field_count (row); j++)
            g_free (libmsi_record_get_string (row, j));
        if (row)
            g_object_unref (row);
    }
}

/* the queries that were left open while others were executed */
static void resume (void)
{
    while (nkept) {
        LibmsiQuery *q = kept[--nkept];
        fetch_rows (q, 200);
        describe (q);
        if (libmsi_query_execute (q, NULL, NULL))
            fetch_rows (q, 200);
        libmsi_query_close (q, NULL);
        g_object_unref (q);
    }
}

static void statement (LibmsiDatabase *db, const char *s, int args, int twice, int keep)
{
    LibmsiQuery *q = libmsi_query_new (db, s, NULL);
    LibmsiRecord *r = NULL;
    int k;
    if (!q)
        return;
    if (args) {
        r = libmsi_record_new (4);
        libmsi_record_set_string (r, 1, args & 1 ? "s1" : "k1");
        libmsi_record_set_int (r, 2, 2);
        libmsi_record_set_int (r, args & 1 ? 4 : 1, 3);
        put (inpath, "stream", 6);
        libmsi_record_load_stream (r, 3, inpath);
    }
    for (k = 0; k <= twice; k++) {
        describe (q);
        if (libmsi_query_execute (q, r, NULL))
            fetch_rows (q, keep ? 1 : 200);
        if (k < twice && args == 2)
            libmsi_query_close (q, NULL);
    }
    if (keep && nkept < 4) {
        kept[nkept++] = q;
        q = NULL;
    } else if (args != 3)
        libmsi_query_close (q, NULL);
    if (q)
        g_object_unref (q);
    if (r)
        g_object_unref (r);
}

static int one (const uint8_t *d, size_t n)
{
    const uint8_t *end = d + n, *e;
    LibmsiDatabase *db;
    int items = 0;
    put (curpath, basedata, baselen);
    db = libmsi_database_new (curpath, LIBMSI_DB_FLAGS_TRANSACT, NULL, NULL);
    for (; d < end && items < 12; d = e + 1, items++) {
        e = memchr (d, 0x1e, end - d);
        if (!e)
            e = end;
        if (e == d)
            continue;
        if (*d == 'I') {
            put (inpath, d + 1, e - d - 1);
            libmsi_database_import (db, inpath, NULL);
        } else if (*d == 'C')
            libmsi_database_commit (db, NULL);
        else if (*d == 'L')
            look (db, 1);
        else if (*d == 'R')
            resume ();
        else {
            char *s = g_strndup ((const char *) d + 1, e - d - 1);
            if (g_utf8_validate (s, -1, NULL))
                statement (db, s, *d & 3, *d >> 2 & 1, *d >> 3 & 1);
            g_free (s);
        }
    }
    look (db, 0);
    libmsi_database_commit (db, NULL);
    if (nkept < 3)
        resume ();
    g_object_unref (db);
    resume ();
    db = libmsi_database_new (curpath, LIBMSI_DB_FLAGS_READONLY, NULL, NULL);
    if (db) {
        look (db, 0);
        g_object_unref (db);
    }
    return 0;
}

int LLVMFuzzerTestOneInput (const uint8_t *d, size_t n)
{
    int fd;
    if (!scratch)
        init ();
    fd = lowest_fd ();
    one (d, n);
    check_fd (fd);
    return 0;
}
