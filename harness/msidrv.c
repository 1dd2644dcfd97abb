/*
 * msidrv - a line-oriented driver around libmsi's public API.
 *
 * Reads "SCRIPT OUT\n" lines on stdin; runs the operations in SCRIPT (one per
 * line, space separated tokens), writes one JSON object per operation to OUT
 * and answers "done\n" on stdout.  All handles are released between scripts.
 *
 * Token syntax for strings: N = NULL, x<hex> = bytes.
 * Parameter syntax: n = null, i<dec> = integer, s<hex> = string, f<hexpath> = stream loaded from
 * file, m<hex> = in-memory stream with these bytes.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dlfcn.h>
#include <malloc.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <libmsi.h>

#define SLOTS 32
#define MAXTOK 600

static LibmsiDatabase *dbs[SLOTS];
static LibmsiQuery *qs[SLOTS];
static LibmsiSummaryInfo *sis[SLOTS];
static LibmsiRecord *recs[SLOTS];
static GInputStream *strs[SLOTS];
static FILE *out;
static int n_crit;

/* while faults are armed the results are kept in memory */
static FILE *held;
static char *heldbuf;
static size_t heldlen;

static void hold (void)
{
    if (held) return;
    fflush (out);
    held = out;
    out = open_memstream (&heldbuf, &heldlen);
}

static void unhold (void)
{
    if (!held) return;
    fclose (out);
    out = held;
    held = NULL;
    fputs (heldbuf, out);
    free (heldbuf);
}
static char first_crit[256];

static GLogWriterOutput
log_writer (GLogLevelFlags level, const GLogField *fields, gsize n, gpointer d)
{
    gsize i;
    if (level & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_WARNING | G_LOG_LEVEL_ERROR)) {
        for (i = 0; i < n; i++)
            if (!strcmp (fields[i].key, "MESSAGE") && !n_crit)
                g_strlcpy (first_crit, fields[i].value, sizeof first_crit);
        n_crit++;
    }
    return G_LOG_WRITER_HANDLED;
}

static int hexval (int c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}

static char *unhex (const char *s, gsize *len)
{
    gsize n = strlen (s) / 2, i;
    char *r = g_malloc (n + 1);
    for (i = 0; i < n; i++)
        r[i] = hexval (s[2 * i]) << 4 | hexval (s[2 * i + 1]);
    r[n] = 0;
    if (len) *len = n;
    return r;
}

static char *strtoken (const char *t)
{
    if (t[0] == 'N') return NULL;
    return unhex (t + 1, NULL);
}

static void puthex (const void *data, gsize n)
{
    static const char *d = "0123456789abcdef";
    const unsigned char *p = data;
    gsize i;
    for (i = 0; i < n; i++) {
        putc_unlocked (d[p[i] >> 4], out);
        putc_unlocked (d[p[i] & 15], out);
    }
}

static void putstr (const char *s)
{
    if (!s) { fputs ("null", out); return; }
    fputs ("\"s", out);
    puthex (s, strlen (s));
    fputs ("\"", out);
}

static void puterr (GError **err)
{
    if (err && *err) {
        fprintf (out, ",\"err\":%d,\"dom\":\"%s\",\"msg\":", (*err)->code, g_quark_to_string ((*err)->domain));
        putstr ((*err)->message);
        g_clear_error (err);
    } else
        fputs (",\"err\":null", out);
}

static void put_stream (GInputStream *in)
{
    char buf[4096];
    gssize n;
    GError *e = NULL;

    if (!in) { fputs ("null", out); return; }
    fputs ("\"b", out);
    while ((n = g_input_stream_read (in, buf, sizeof buf, NULL, &e)) > 0)
        puthex (buf, n);
    fputs ("\"", out);
    g_clear_error (&e);
}

static LibmsiRecord *build_record (char **tok, int n)
{
    LibmsiRecord *rec;
    int i;

    rec = libmsi_record_new (n);
    for (i = 0; i < n; i++) {
        char *t = tok[i], *s;
        gsize len;
        switch (t[0]) {
        case 'n': break;
        case 'i': libmsi_record_set_int (rec, i + 1, (int) strtoll (t + 1, NULL, 10)); break;
        case 's': s = unhex (t + 1, NULL); libmsi_record_set_string (rec, i + 1, s); g_free (s); break;
        case 'f': s = unhex (t + 1, NULL); libmsi_record_load_stream (rec, i + 1, s); g_free (s); break;
        case 'm': {
            GInputStream *is;
            GError *e = NULL;
            s = unhex (t + 1, &len);
            is = g_memory_input_stream_new_from_data (g_memdup2 (s, len), len, g_free);
            libmsi_record_set_stream (rec, i + 1, is, len, NULL, &e);
            g_clear_error (&e);
            g_object_unref (is);
            g_free (s);
            break;
        }
        }
    }
    return rec;
}

static void put_field (LibmsiRecord *rec, int i, char type)
{
    char *s;
    GInputStream *in;

    if (type == 'v' || type == 'V') {
        in = libmsi_record_get_stream (rec, i);
        put_stream (in);
        if (in) g_object_unref (in);
        return;
    }
    if (libmsi_record_is_null (rec, i)) { fputs ("null", out); return; }
    switch (type) {
    case 'i': case 'I': case 'j': case 'J':
        fprintf (out, "%d", libmsi_record_get_int (rec, i));
        break;
    default:
        s = libmsi_record_get_string (rec, i);
        putstr (s);
        g_free (s);
    }
}

static void put_rec_strings (LibmsiRecord *rec)
{
    guint i, n = libmsi_record_get_field_count (rec);
    fputs ("[", out);
    for (i = 1; i <= n; i++) {
        char *s = libmsi_record_get_string (rec, i);
        if (i > 1) fputs (",", out);
        putstr (s);
        g_free (s);
    }
    fputs ("]", out);
}

static char *coltypes (LibmsiQuery *q)
{
    LibmsiRecord *t = libmsi_query_get_column_info (q, LIBMSI_COL_INFO_TYPES, NULL);
    guint i, n;
    char *r;
    if (!t) return NULL;
    n = libmsi_record_get_field_count (t);
    r = g_malloc0 (n + 1);
    for (i = 1; i <= n; i++) {
        char *s = libmsi_record_get_string (t, i);
        r[i - 1] = s && s[0] ? s[0] : 's';
        g_free (s);
    }
    g_object_unref (t);
    return r;
}

static int fetch_row (LibmsiQuery *q, const char *types, GError **err)
{
    LibmsiRecord *rec = libmsi_query_fetch (q, err);
    guint i, n;
    if (!rec) return 0;
    n = libmsi_record_get_field_count (rec);
    fputs ("[", out);
    for (i = 1; i <= n; i++) {
        if (i > 1) fputs (",", out);
        put_field (rec, i, types && i <= strlen (types) ? types[i - 1] : 's');
    }
    fputs ("]", out);
    g_object_unref (rec);
    return 1;
}

static void qinfo (LibmsiQuery *q)
{
    LibmsiRecord *names, *types;
    GError *e = NULL;
    names = libmsi_query_get_column_info (q, LIBMSI_COL_INFO_NAMES, &e);
    if (e || !names) { g_clear_error (&e); return; }
    types = libmsi_query_get_column_info (q, LIBMSI_COL_INFO_TYPES, &e);
    if (e || !types) { g_clear_error (&e); g_object_unref (names); return; }
    fputs (",\"names\":", out);
    put_rec_strings (names);
    fputs (",\"types\":", out);
    put_rec_strings (types);
    g_object_unref (names);
    g_object_unref (types);
}

/* q DB SQL [params...] : whole life cycle of a query */
static void op_query (int db, const char *sql, char **tok, int n)
{
    GError *err = NULL;
    LibmsiQuery *q;
    LibmsiRecord *rec = NULL;
    char *types;
    int rows = 0, sel;

    q = libmsi_query_new (dbs[db], sql, &err);
    if (!q) { fputs ("{\"st\":\"new\"", out); puterr (&err); return; }
    if (n) rec = build_record (tok, n);
    if (!libmsi_query_execute (q, rec, &err)) {
        char *col = NULL;
        GError *e2 = NULL;
        fputs ("{\"st\":\"exec\"", out);
        puterr (&err);
        libmsi_query_get_error (q, &col, &e2);
        fprintf (out, ",\"derr\":%d,\"dcol\":", e2 ? e2->code : 0);
        putstr (col);
        g_free (col);
        g_clear_error (&e2);
        goto done;
    }
    while (*sql == ' ' || *sql == '\t' || *sql == '\r' || *sql == '\n') sql++;
    sel = !g_ascii_strncasecmp (sql, "select", 6);
    types = sel ? coltypes (q) : NULL;
    fputs ("{\"rows\":[", out);
    while (sel) {
        long pos;
        if (rows >= 200000) break;
        pos = ftell (out);
        if (rows) fputs (",", out);
        if (!fetch_row (q, types, &err)) {
            if (rows) { fflush (out); fseek (out, pos, SEEK_SET); }
            break;
        }
        rows++;
    }
    fprintf (out, "],\"st\":\"%s\"", err ? "fetch" : "ok");
    puterr (&err);
    if (sel) qinfo (q);
    g_free (types);
done:
    libmsi_query_close (q, &err);
    g_clear_error (&err);
    g_object_unref (q);
    if (rec) g_object_unref (rec);
}

static void release_all (void)
{
    int i;
    for (i = 0; i < SLOTS; i++) {
        g_clear_object (&strs[i]);
        if (recs[i]) { g_object_unref (recs[i]); recs[i] = NULL; }
        if (qs[i]) { libmsi_query_close (qs[i], NULL); g_object_unref (qs[i]); qs[i] = NULL; }
        if (sis[i]) { g_object_unref (sis[i]); sis[i] = NULL; }
        if (dbs[i]) { g_object_unref (dbs[i]); dbs[i] = NULL; }
    }
}

#define SL(i) (atoi (tok[i]) % SLOTS)

static void do_op (char **tok, int n)
{
    const char *op = tok[0];
    GError *err = NULL;
    char *a = NULL, *b = NULL;
    int ok;

    if (!strcmp (op, "open")) {
        a = strtoken (tok[2]); b = strtoken (tok[4]);
        if (dbs[SL (1)]) g_object_unref (dbs[SL (1)]);
        dbs[SL (1)] = libmsi_database_new (a, atoi (tok[3]), b, &err);
        fprintf (out, "{\"ok\":%s", dbs[SL (1)] ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "close")) {
        g_clear_object (&dbs[SL (1)]);
        fputs ("{\"ok\":true", out);
    } else if (!strcmp (op, "commit")) {
        ok = libmsi_database_commit (dbs[SL (1)], &err);
        fprintf (out, "{\"ok\":%s", ok ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "isro")) {
        fprintf (out, "{\"v\":%d", libmsi_database_is_readonly (dbs[SL (1)]));
    } else if (!strcmp (op, "q")) {
        a = strtoken (tok[2]);
        op_query (SL (1), a, tok + 3, n - 3);
    } else if (!strcmp (op, "qnew")) {
        a = strtoken (tok[3]);
        if (qs[SL (1)]) g_object_unref (qs[SL (1)]);
        qs[SL (1)] = libmsi_query_new (dbs[SL (2)], a, &err);
        fprintf (out, "{\"ok\":%s", qs[SL (1)] ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "qexec")) {
        LibmsiRecord *rec = n > 2 ? build_record (tok + 2, n - 2) : NULL;
        ok = libmsi_query_execute (qs[SL (1)], rec, &err);
        fprintf (out, "{\"ok\":%s", ok ? "true" : "false");
        puterr (&err);
        if (!ok) {
            char *col = NULL;
            libmsi_query_get_error (qs[SL (1)], &col, &err);
            fprintf (out, ",\"derr\":%d", err ? err->code : 0);
            g_clear_error (&err);
            g_free (col);
        }
        if (rec) g_object_unref (rec);
    } else if (!strcmp (op, "qexecrec")) {
        ok = libmsi_query_execute (qs[SL (1)], recs[SL (2)], &err);
        fprintf (out, "{\"ok\":%s", ok ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "qfetch")) {
        char *types = coltypes (qs[SL (1)]);
        fputs ("{\"row\":", out);
        if (!fetch_row (qs[SL (1)], types, &err)) fputs ("null", out);
        puterr (&err);
        g_free (types);
    } else if (!strcmp (op, "qinfo")) {
        fputs ("{\"ok\":true", out);
        qinfo (qs[SL (1)]);
    } else if (!strcmp (op, "qclose")) {
        ok = libmsi_query_close (qs[SL (1)], &err);
        fprintf (out, "{\"ok\":%s", ok ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "qfree")) {
        g_clear_object (&qs[SL (1)]);
        fputs ("{\"ok\":true", out);
    } else if (!strcmp (op, "import")) {
        a = strtoken (tok[2]);
        ok = libmsi_database_import (dbs[SL (1)], a, &err);
        fprintf (out, "{\"ok\":%s", ok ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "export")) {
        int fd;
        a = strtoken (tok[2]); b = strtoken (tok[3]);
        fd = open (b, O_CREAT | O_TRUNC | O_WRONLY, 0644);
        ok = libmsi_database_export (dbs[SL (1)], a, fd, &err);
        close (fd);
        fprintf (out, "{\"ok\":%s", ok ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "pk")) {
        LibmsiRecord *rec;
        a = strtoken (tok[2]);
        rec = libmsi_database_get_primary_keys (dbs[SL (1)], a, &err);
        fputs ("{\"keys\":", out);
        if (rec) { put_rec_strings (rec); g_object_unref (rec); }
        else fputs ("null", out);
        puterr (&err);
    } else if (!strcmp (op, "tpers")) {
        a = strtoken (tok[2]);
        ok = libmsi_database_is_table_persistent (dbs[SL (1)], a, &err);
        fprintf (out, "{\"v\":%d", ok);
        puterr (&err);
    } else if (!strcmp (op, "merge")) {
        a = strtoken (tok[3]);
        ok = libmsi_database_merge (dbs[SL (1)], dbs[SL (2)], a, &err);
        fprintf (out, "{\"ok\":%s", ok ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "xform")) {
        a = strtoken (tok[2]);
        ok = libmsi_database_apply_transform (dbs[SL (1)], a, &err);
        fprintf (out, "{\"ok\":%s", ok ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "si_open")) {
        if (sis[SL (1)]) g_object_unref (sis[SL (1)]);
        sis[SL (1)] = libmsi_summary_info_new (tok[2][0] == 'N' ? NULL : dbs[SL (2)],
                                             (unsigned) strtoul (tok[3], NULL, 10), &err);
        fprintf (out, "{\"ok\":%s", sis[SL (1)] ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "si_set")) {
        int prop = atoi (tok[2]);
        switch (tok[3][0]) {
        case 'i': ok = libmsi_summary_info_set_int (sis[SL (1)], prop, (int) strtoll (tok[3] + 1, NULL, 10), &err); break;
        case 't': ok = libmsi_summary_info_set_filetime (sis[SL (1)], prop, strtoull (tok[3] + 1, NULL, 10), &err); break;
        default: a = unhex (tok[3] + 1, NULL); ok = libmsi_summary_info_set_string (sis[SL (1)], prop, a, &err); break;
        }
        fprintf (out, "{\"ok\":%s", ok ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "si_get")) {
        /* type first, then the getter of that type (or of the forced type) */
        int prop = atoi (tok[2]);
        int type = libmsi_summary_info_get_property_type (sis[SL (1)], prop, &err);
        fprintf (out, "{\"type\":%d", type);
        puterr (&err);
        fputs (",\"v\":", out);
        if (type == LIBMSI_PROPERTY_TYPE_INT)
            fprintf (out, "%d", libmsi_summary_info_get_int (sis[SL (1)], prop, &err));
        else if (type == LIBMSI_PROPERTY_TYPE_FILETIME)
            fprintf (out, "%" G_GUINT64_FORMAT, libmsi_summary_info_get_filetime (sis[SL (1)], prop, &err));
        else if (type == LIBMSI_PROPERTY_TYPE_STRING)
            putstr (libmsi_summary_info_get_string (sis[SL (1)], prop, &err));
        else
            fputs ("null", out);
        fprintf (out, ",\"geterr\":%d", err ? err->code : 0);
        g_clear_error (&err);
    } else if (!strcmp (op, "si_getas")) {
        int prop = atoi (tok[2]);
        const char *s;
        fputs ("{\"v\":", out);
        switch (tok[3][0]) {
        case 'i': { int v = libmsi_summary_info_get_int (sis[SL (1)], prop, &err); if (err) fputs ("null", out); else fprintf (out, "%d", v); break; }
        case 't': { guint64 v = libmsi_summary_info_get_filetime (sis[SL (1)], prop, &err); if (err) fputs ("null", out); else fprintf (out, "%" G_GUINT64_FORMAT, v); break; }
        default: s = libmsi_summary_info_get_string (sis[SL (1)], prop, &err); if (err) fputs ("null", out); else putstr (s); break;
        }
        puterr (&err);
    } else if (!strcmp (op, "si_props")) {
        GArray *arr = libmsi_summary_info_get_properties (sis[SL (1)]);
        guint i;
        fputs ("{\"v\":[", out);
        for (i = 0; arr && i < arr->len; i++)
            fprintf (out, "%s%d", i ? "," : "", (int) g_array_index (arr, LibmsiProperty, i));
        fputs ("]", out);
        if (arr) g_array_unref (arr);
    } else if (!strcmp (op, "si_persist")) {
        ok = libmsi_summary_info_persist (sis[SL (1)], &err);
        fprintf (out, "{\"ok\":%s", ok ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "si_save")) {
        ok = libmsi_summary_info_save (sis[SL (1)], dbs[SL (2)], &err);
        fprintf (out, "{\"ok\":%s", ok ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "si_free")) {
        g_clear_object (&sis[SL (1)]);
        fputs ("{\"ok\":true", out);
    } else if (!strcmp (op, "r_new")) {
        if (recs[SL (1)]) g_object_unref (recs[SL (1)]);
        recs[SL (1)] = libmsi_record_new ((guint) strtoul (tok[2], NULL, 10));
        fprintf (out, "{\"ok\":%s", recs[SL (1)] ? "true" : "false");
    } else if (!strcmp (op, "r_count")) {
        fprintf (out, "{\"v\":%u", libmsi_record_get_field_count (recs[SL (1)]));
    } else if (!strcmp (op, "r_clear")) {
        fprintf (out, "{\"v\":%d", libmsi_record_clear (recs[SL (1)]));
    } else if (!strcmp (op, "r_null")) {
        fprintf (out, "{\"v\":%d", libmsi_record_is_null (recs[SL (1)], (guint) strtoul (tok[2], NULL, 10)));
    } else if (!strcmp (op, "r_set")) {
        guint f = (guint) strtoul (tok[2], NULL, 10);
        gsize len;
        switch (tok[3][0]) {
        case 'i': ok = libmsi_record_set_int (recs[SL (1)], f, (int) strtoll (tok[3] + 1, NULL, 10)); break;
        case 'N': ok = libmsi_record_set_string (recs[SL (1)], f, NULL); break;
        case 's': a = unhex (tok[3] + 1, NULL); ok = libmsi_record_set_string (recs[SL (1)], f, a); break;
        case 'f': a = unhex (tok[3] + 1, NULL); ok = libmsi_record_load_stream (recs[SL (1)], f, a); break;
        default: {
            GInputStream *is;
            a = unhex (tok[3] + 1, &len);
            is = g_memory_input_stream_new_from_data (g_memdup2 (a, len), len, g_free);
            ok = libmsi_record_set_stream (recs[SL (1)], f, is, tok[3][0] == 'u' ? len + 3 : len, NULL, &err);
            g_clear_error (&err);
            g_object_unref (is);
        }
        }
        fprintf (out, "{\"v\":%d", ok);
    } else if (!strcmp (op, "r_int")) {
        fprintf (out, "{\"v\":%d", libmsi_record_get_int (recs[SL (1)], (guint) strtoul (tok[2], NULL, 10)));
    } else if (!strcmp (op, "r_str")) {
        a = libmsi_record_get_string (recs[SL (1)], (guint) strtoul (tok[2], NULL, 10));
        fputs ("{\"v\":", out);
        putstr (a);
    } else if (!strcmp (op, "r_stream")) {
        GInputStream *in = libmsi_record_get_stream (recs[SL (1)], (guint) strtoul (tok[2], NULL, 10));
        fputs ("{\"v\":", out);
        put_stream (in);
        if (in) g_object_unref (in);
    } else if (!strcmp (op, "qfetchrec")) {
        g_clear_object (&recs[SL (2)]);
        recs[SL (2)] = libmsi_query_fetch (qs[SL (1)], &err);
        fprintf (out, "{\"v\":%s", recs[SL (2)] ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "s_open")) {
        g_clear_object (&strs[SL (1)]);
        strs[SL (1)] = libmsi_record_get_stream (recs[SL (2)], (guint) strtoul (tok[3], NULL, 10));
        fprintf (out, "{\"v\":%s", strs[SL (1)] ? "true" : "false");
    } else if (!strcmp (op, "s_read")) {
        gsize cnt = strtoul (tok[2], NULL, 10);
        char *buf = g_malloc (cnt + 1);
        gssize got = g_input_stream_read (strs[SL (1)], buf, cnt, NULL, &err);
        if (got < 0)
            fputs ("{\"v\":null", out);
        else {
            fputs ("{\"v\":\"b", out);
            puthex (buf, got);
            fputs ("\"", out);
        }
        g_free (buf);
        puterr (&err);
    } else if (!strcmp (op, "s_skip")) {
        gssize got = g_input_stream_skip (strs[SL (1)], strtoul (tok[2], NULL, 10), NULL, &err);
        fprintf (out, "{\"v\":%ld", (long) got);
        puterr (&err);
    } else if (!strcmp (op, "s_seek")) {
        ok = g_seekable_seek (G_SEEKABLE (strs[SL (1)]), strtoll (tok[2], NULL, 10),
                              tok[3][0] == 's' ? G_SEEK_SET : tok[3][0] == 'c' ? G_SEEK_CUR : G_SEEK_END, NULL, &err);
        fprintf (out, "{\"v\":%s", ok ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "s_tell")) {
        fprintf (out, "{\"v\":%ld", (long) g_seekable_tell (G_SEEKABLE (strs[SL (1)])));
    } else if (!strcmp (op, "s_close")) {
        ok = g_input_stream_close (strs[SL (1)], NULL, &err);
        g_clear_object (&strs[SL (1)]);
        fprintf (out, "{\"v\":%s", ok ? "true" : "false");
        puterr (&err);
    } else if (!strcmp (op, "cpu")) {
        /* more CPU time for the rest of a script known to be long */
        struct rlimit rl;
        getrlimit (RLIMIT_CPU, &rl);
        rl.rlim_cur += atoi (tok[1]);
        setrlimit (RLIMIT_CPU, &rl);
        fprintf (out, "{\"ok\":true");
    } else if (!strcmp (op, "mem")) {
        /* bytes allocated and descriptors open */
        size_t (*f) (void) = (size_t (*) (void)) dlsym (RTLD_DEFAULT, "__sanitizer_get_current_allocated_bytes");
        GDir *dir = g_dir_open ("/proc/self/fd", 0, NULL);
        unsigned fds = 0;
        while (dir && g_dir_read_name (dir)) fds++;
        if (dir) g_dir_close (dir);
        fprintf (out, "{\"ok\":true,\"bytes\":%lu,\"fds\":%u", f ? (unsigned long) f () : (unsigned long) mallinfo2 ().uordblks, fds);
    } else if (!strcmp (op, "chdir")) {
        a = strtoken (tok[1]);
        ok = chdir (a);
        fprintf (out, "{\"ok\":%s", ok == 0 ? "true" : "false");
    } else if (!strcmp (op, "arm")) {
        void (*f) (int, int) = (void (*) (int, int)) dlsym (RTLD_DEFAULT, "vf_arm");
        hold ();
        if (f) f (atoi (tok[1]), atoi (tok[2]));
        return;
    } else if (!strcmp (op, "disarm")) {
        int (*f) (void) = (int (*) (void)) dlsym (RTLD_DEFAULT, "vf_disarm");
        n = f ? f () : -1;
        unhold ();
        fprintf (out, "{\"armed\":true}\n{\"count\":%d", n);
    } else if (!strcmp (op, "limit_fsize")) {
        struct rlimit rl;
        if (tok[1][0] != 'N') hold ();
        getrlimit (RLIMIT_FSIZE, &rl);
        rl.rlim_cur = tok[1][0] == 'N' ? rl.rlim_max : strtoull (tok[1], NULL, 10);
        ok = setrlimit (RLIMIT_FSIZE, &rl);
        if (tok[1][0] == 'N') unhold ();
        fprintf (out, "{\"ok\":%s", ok == 0 ? "true" : "false");
    } else
        fputs ("{\"unknown\":true", out);

    if (n_crit) {
        fprintf (out, ",\"crit\":%d,\"critmsg\":", n_crit);
        putstr (first_crit);
        n_crit = 0;
    }
    fputs ("}\n", out);
    g_free (a);
    g_free (b);
    g_clear_error (&err);
}

static void run_script (const char *script, const char *outp)
{
    gchar *data;
    gsize len;
    char *p, *nl;
    struct rusage ru;
    struct rlimit rl;

    /* a script gets 20 s of CPU time: a hang is a verdict on CPU time, not on the clock */
    getrusage (RUSAGE_SELF, &ru);
    getrlimit (RLIMIT_CPU, &rl);
    rl.rlim_cur = ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + 20;
    setrlimit (RLIMIT_CPU, &rl);

    if (!g_file_get_contents (script, &data, &len, NULL)) return;
    out = fopen (outp, "w");
    for (p = data; p && *p; p = nl ? nl + 1 : NULL) {
        char *tok[MAXTOK];
        int n = 0;
        char *t;
        nl = strchr (p, '\n');
        if (nl) *nl = 0;
        for (t = strtok (p, " "); t && n < MAXTOK; t = strtok (NULL, " ")) tok[n++] = t;
        if (n) { do_op (tok, n); fflush (out); }
    }
    unhold ();
    fclose (out);
    g_free (data);
    release_all ();
}

int main (int argc, char **argv)
{
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;

    signal (SIGXFSZ, SIG_IGN);
    g_log_set_writer_func (log_writer, NULL, NULL);
    while ((n = getline (&line, &cap, stdin)) > 0) {
        char *sp;
        if (line[n - 1] == '\n') line[n - 1] = 0;
        sp = strchr (line, ' ');
        if (!sp) break;
        *sp = 0;
        run_script (line, sp + 1);
        fputs ("done\n", stdout);
        fflush (stdout);
    }
    return 0;
}
