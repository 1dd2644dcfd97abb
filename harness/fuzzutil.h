/* Shared by the fuzz targets: a scratch directory, a base database, and a thorough look at a database. */
#include <libmsi.h>
#include <gsf/gsf.h>
#include <gsf/gsf-outfile-msole.h>
#include <gsf/gsf-output-memory.h>
#include <glib/gstdio.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdint.h>

static char *scratch, *inpath, *basepath, *curpath;
static char *basedata;
static gsize baselen;

static void quiet (const gchar *d, GLogLevelFlags l, const gchar *m, gpointer p) { }

static gboolean sql (LibmsiDatabase *db, const char *s, LibmsiRecord *rec)
{
    LibmsiQuery *q = libmsi_query_new (db, s, NULL);
    gboolean r;
    if (!q)
        return FALSE;
    r = libmsi_query_execute (q, rec, NULL);
    libmsi_query_close (q, NULL);
    g_object_unref (q);
    return r;
}

static void cleanup (void)
{
    const char *n;
    GDir *d;
    if (!scratch)
        return;
    d = g_dir_open (scratch, 0, NULL);
    while (d && (n = g_dir_read_name (d))) {
        char *p = g_build_filename (scratch, n, NULL);
        g_unlink (p);
        g_free (p);
    }
    if (d)
        g_dir_close (d);
    g_rmdir (scratch);
}

static void put (const char *path, const void *data, gsize len)
{
    FILE *f = fopen (path, "wb");
    if (!f)
        abort ();
    fwrite (data, 1, len, f);
    fclose (f);
}

/* everything that was opened has been released: the next descriptor has the same number */
static int lowest_fd (void)
{
    int fd = open ("/dev/null", O_RDONLY);
    close (fd);
    return fd;
}

static void check_fd (int fd)
{
    if (lowest_fd () != fd) {
        fprintf (stderr, "ERROR: a file is still open after all handles were released\n");
        abort ();
    }
}

static void look (LibmsiDatabase *db, int deep);

static void init (void)
{
    LibmsiDatabase *db;
    LibmsiRecord *rec;
    int i;
    scratch = g_build_filename (g_get_tmp_dir (), "msifuzz-XXXXXX", NULL);
    if (!g_mkdtemp (scratch))
        abort ();
    atexit (cleanup);
    inpath = g_build_filename (scratch, "in", NULL);
    basepath = g_build_filename (scratch, "base", NULL);
    curpath = g_build_filename (scratch, "cur", NULL);
    if (!getenv ("FUZZ_VERBOSE"))
        g_log_set_default_handler (quiet, NULL);
    db = libmsi_database_new (basepath, LIBMSI_DB_FLAGS_CREATE, NULL, NULL);
    sql (db, "CREATE TABLE `A` (`Id` SHORT NOT NULL, `S` CHAR(40), `L` LONG PRIMARY KEY `Id`)", NULL);
    sql (db, "CREATE TABLE `B` (`K` CHAR(20) NOT NULL, `D` OBJECT, `N` SHORT PRIMARY KEY `K`)", NULL);
    sql (db, "CREATE TABLE `C` (`K1` CHAR(20) NOT NULL, `K2` SHORT NOT NULL, `V` CHAR(0) LOCALIZABLE PRIMARY KEY `K1`, `K2`)", NULL);
    for (i = 0; i < 6; i++) {
        char *s = g_strdup_printf ("INSERT INTO `A` (`Id`, `S`, `L`) VALUES (%d, 's%d', %d)", i, i / 2, i * 70000);
        sql (db, s, NULL);
        g_free (s);
        s = g_strdup_printf ("INSERT INTO `C` (`K1`, `K2`, `V`) VALUES ('k%d', %d, 'v%d')", i / 2, i, i);
        sql (db, s, NULL);
        g_free (s);
    }
    rec = libmsi_record_new (1);
    put (inpath, "data", 4);
    libmsi_record_load_stream (rec, 1, inpath);
    sql (db, "INSERT INTO `B` (`K`, `D`, `N`) VALUES ('x', ?, 3)", rec);
    g_object_unref (rec);
    libmsi_database_commit (db, NULL);
    g_object_unref (db);
    if (!g_file_get_contents (basepath, &basedata, &baselen, NULL))
        abort ();
}

static void drain (GInputStream *s)
{
    char buf[4096];
    int n;
    if (!s)
        return;
    for (n = 0; n < 64 && g_input_stream_read (s, buf, sizeof buf, NULL, NULL) > 0; n++)
        ;
    g_object_unref (s);
}

static void fetch_all (LibmsiDatabase *db, const char *stmt, LibmsiRecord *args, GPtrArray *names)
{
    LibmsiQuery *q = libmsi_query_new (db, stmt, NULL);
    LibmsiRecord *r;
    int n = 0;
    if (!q)
        return;
    if (libmsi_query_execute (q, args, NULL)) {
        for (int k = 0; k < 2; k++) {
            r = libmsi_query_get_column_info (q, k ? LIBMSI_COL_INFO_TYPES : LIBMSI_COL_INFO_NAMES, NULL);
            if (r) {
                for (guint i = 0; i <= libmsi_record_get_field_count (r) + 1; i++)
                    g_free (libmsi_record_get_string (r, i));
                g_object_unref (r);
            }
        }
        while (n++ < 300 && (r = libmsi_query_fetch (q, NULL))) {
            guint c = libmsi_record_get_field_count (r);
            if (names && c > 0)
                g_ptr_array_add (names, libmsi_record_get_string (r, 1));
            for (guint i = 0; i <= c; i++) {
                libmsi_record_is_null (r, i);
                libmsi_record_get_int (r, i);
                g_free (libmsi_record_get_string (r, i));
                drain (libmsi_record_get_stream (r, i));
            }
            g_object_unref (r);
        }
    }
    libmsi_query_close (q, NULL);
    g_object_unref (q);
}

static gboolean plain_name (const char *s)
{
    return *s && !strpbrk (s, "`'\"");
}

static void look (LibmsiDatabase *db, int deep)
{
    GPtrArray *names = g_ptr_array_new_with_free_func (g_free);
    LibmsiSummaryInfo *si;
    GArray *props;
    int fd;

    libmsi_database_is_readonly (db);
    fetch_all (db, "SELECT * FROM `_Tables`", NULL, names);
    fetch_all (db, "SELECT * FROM `_Columns` WHERE `Number` = 1", NULL, NULL);
    g_ptr_array_add (names, g_strdup ("A"));
    g_ptr_array_add (names, g_strdup ("_Streams"));
    g_ptr_array_add (names, g_strdup ("_Storages"));
    g_ptr_array_add (names, g_strdup ("_Columns"));
    for (guint i = 0; i < names->len && i < 24; i++) {
        const char *n = g_ptr_array_index (names, i);
        LibmsiRecord *r = libmsi_database_get_primary_keys (db, n, NULL);
        char *s;
        if (r) {
            for (guint k = 0; k <= libmsi_record_get_field_count (r); k++)
                g_free (libmsi_record_get_string (r, k));
            g_object_unref (r);
        }
        libmsi_database_is_table_persistent (db, n, NULL);
        if (plain_name (n)) {
            s = g_strdup_printf ("SELECT * FROM `%s`", n);
            fetch_all (db, s, NULL, NULL);
            g_free (s);
            if (deep) {
                s = g_strdup_printf ("SELECT DISTINCT * FROM `%s`", n);
                fetch_all (db, s, NULL, NULL);
                g_free (s);
            }
        }
        fd = open ("/dev/null", O_WRONLY);
        libmsi_database_export (db, n, fd, NULL);
        close (fd);
    }
    if (names->len >= 6 && deep) {
        char *s = g_strdup_printf ("SELECT * FROM `%s`, `%s`", (char *) names->pdata[0], (char *) names->pdata[1]);
        fetch_all (db, s, NULL, NULL);
        g_free (s);
    }
    si = libmsi_summary_info_new (db, 0, NULL);
    if (si) {
        for (int p = 0; p < 22; p++) {
            libmsi_summary_info_get_property_type (si, p, NULL);
            libmsi_summary_info_get_string (si, p, NULL);
            libmsi_summary_info_get_int (si, p, NULL);
            libmsi_summary_info_get_filetime (si, p, NULL);
        }
        props = libmsi_summary_info_get_properties (si);
        if (props)
            g_array_unref (props);
        g_object_unref (si);
    }
    fd = open ("/dev/null", O_WRONLY);
    libmsi_database_export (db, "_SummaryInformation", fd, NULL);
    libmsi_database_export (db, "_ForceCodepage", fd, NULL);
    close (fd);
    g_ptr_array_unref (names);
}

static void modify (LibmsiDatabase *db)
{
    GPtrArray *names = g_ptr_array_new_with_free_func (g_free);
    LibmsiSummaryInfo *si;
    fetch_all (db, "SELECT `Name` FROM `_Tables`", NULL, names);
    for (guint i = 0; i < names->len && i < 6; i++) {
        const char *n = g_ptr_array_index (names, i);
        LibmsiRecord *k, *row = NULL;
        LibmsiQuery *q;
        GString *s;
        char *t;
        if (!plain_name (n))
            continue;
        /* insert the first row once more, under another key */
        t = g_strdup_printf ("SELECT * FROM `%s`", n);
        q = libmsi_query_new (db, t, NULL);
        g_free (t);
        if (!q)
            continue;
        k = libmsi_query_get_column_info (q, LIBMSI_COL_INFO_NAMES, NULL);
        if (libmsi_query_execute (q, NULL, NULL))
            row = libmsi_query_fetch (q, NULL);
        libmsi_query_close (q, NULL);
        g_object_unref (q);
        if (k) {
            guint c = libmsi_record_get_field_count (k);
            char *first = libmsi_record_get_string (k, 1), *last = libmsi_record_get_string (k, c);
            s = g_string_new (NULL);
            g_string_printf (s, "INSERT INTO `%s` (", n);
            for (guint j = 1; j <= c; j++) {
                char *x = libmsi_record_get_string (k, j);
                g_string_append_printf (s, "%s`%s`", j > 1 ? "," : "", x ? x : "");
                g_free (x);
            }
            g_string_append (s, ") VALUES (");
            for (guint j = 1; j <= c; j++)
                g_string_append (s, j > 1 ? ",?" : "?");
            g_string_append (s, ")");
            if (row) {
                sql (db, s->str, row);
                libmsi_record_set_int (row, 1, 77);
                sql (db, s->str, row);
                libmsi_record_set_string (row, 1, "new key");
                sql (db, s->str, row);
                g_string_printf (s, "UPDATE `%s` SET `%s` = ?", n, last ? last : "");
                libmsi_record_set_string (row, 1, "other");
                sql (db, s->str, row);
                libmsi_record_set_int (row, 1, 5);
                sql (db, s->str, row);
            }
            g_string_printf (s, "ALTER TABLE `%s` ADD `nEw` CHAR(5)", n);
            sql (db, s->str, NULL);
            if (i & 1) {
                g_string_printf (s, "DELETE FROM `%s` WHERE `%s` = 'new key'", n, first ? first : "");
                sql (db, s->str, NULL);
            }
            if (i == 2) {
                g_string_printf (s, "DROP TABLE `%s`", n);
                sql (db, s->str, NULL);
            }
            g_string_free (s, TRUE);
            g_free (first);
            g_free (last);
            g_object_unref (k);
        }
        if (row)
            g_object_unref (row);
    }
    sql (db, "CREATE TABLE `nEwT` (`a` SHORT, `b` CHAR(3) PRIMARY KEY `a`)", NULL);
    sql (db, "INSERT INTO `nEwT` (`a`, `b`) VALUES (1, 'q')", NULL);
    si = libmsi_summary_info_new (db, 4, NULL);
    if (si) {
        libmsi_summary_info_set_string (si, 3, "subject", NULL);
        libmsi_summary_info_persist (si, NULL);
        g_object_unref (si);
    }
    g_ptr_array_unref (names);
    libmsi_database_commit (db, NULL);
}

/* Built with -DPERSIST: inputs from stdin (32 bit length, then data), one byte answered for each.
 * With the highest bit of the length set, the input is run again and again, and L is answered if every time leaves memory behind. */
#ifdef PERSIST
size_t __sanitizer_get_current_allocated_bytes (void);
int LLVMFuzzerTestOneInput (const uint8_t *d, size_t n);

static int all (void *p, size_t n)
{
    while (n) {
        ssize_t r = read (0, p, n);
        if (r <= 0)
            return 0;
        p = (char *) p + r;
        n -= r;
    }
    return 1;
}

int main (void)
{
    uint32_t n;
    int out = dup (1);
    dup2 (2, 1);
    while (all (&n, 4)) {
        int again = n >> 31;
        char answer = '.';
        uint8_t *d;
        n &= 0x7fffffff;
        d = malloc (n + 1);
        if (!all (d, n))
            break;
        alarm (30);
        LLVMFuzzerTestOneInput (d, n);
        if (again) {
            size_t last = 0, now;
            int i, grown = 0;
            alarm (200);
            for (i = 0; i < 7; i++) {
                LLVMFuzzerTestOneInput (d, n);
                now = __sanitizer_get_current_allocated_bytes ();
                if (i > 2 && now > last)
                    grown++;
                last = now;
                if (i > 2 && !grown)
                    break;
            }
            if (grown == 4)
                answer = 'L';
        }
        alarm (0);
        free (d);
        if (write (out, &answer, 1) != 1)
            break;
    }
    return 0;
}
#endif
