/* Fuzz target: a database, transform or merge module made of arbitrary streams.
 * Input: mode byte; then either a whole file (mode & 8) or streams: selector, [length, name], 16 bit length, data. */
#include "fuzzutil.h"

static const char *const NAMES[] = {"_StringPool", "_StringData", "_Tables", "_Columns", "\005SummaryInformation", "A", "B", "C", "_Validation", "Tab", "Property", "File"};
static const guint8 CLSID[4] = {0x84, 0x82, 0x84, 0x86};

/* an encoder of its own, names of at most 62 characters */
static int mime (int x)
{
    static const char cs[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz._";
    const char *p = x && x < 128 ? strchr (cs, x) : NULL;
    return p ? p - cs : -1;
}

static char *encode (const char *n)
{
    GString *s = g_string_new (NULL);
    if (*n == 5)
        return g_string_free (g_string_append (s, n), FALSE);
    g_string_append_unichar (s, 0x4840);
    while (*n) {
        gunichar c = g_utf8_get_char (n);
        int a = mime (c), b;
        n = g_utf8_next_char (n);
        b = *n ? mime (g_utf8_get_char (n)) : -1;
        if (a < 0)
            g_string_append_unichar (s, c);
        else if (b >= 0) {
            g_string_append_unichar (s, 0x3800 + a + (b << 6));
            n = g_utf8_next_char (n);
        } else
            g_string_append_unichar (s, 0x4800 + a);
    }
    return g_string_free (s, FALSE);
}

static int build (const uint8_t *d, size_t n, int mode)
{
    GsfOutput *mem = gsf_output_memory_new ();
    GsfOutfile *ole = gsf_outfile_msole_new (mem);
    GHashTable *seen = g_hash_table_new_full (g_str_hash, g_str_equal, g_free, NULL);
    guint8 clsid[16] = {0, 0x10, 0x0c, 0, 0, 0, 0, 0, 0xc0, 0, 0, 0, 0, 0, 0, 0x46};
    int count = 0;
    clsid[0] = CLSID[mode & 3];
    gsf_outfile_msole_set_class_id (GSF_OUTFILE_MSOLE (ole), clsid);
    while (n > 2 && count < 30) {
        uint8_t sel = *d++;
        char *name, *enc;
        size_t len;
        GsfOutput *c;
        n--;
        if (sel == 255 || sel == 254) {
            len = *d++;
            n--;
            if (len > 62)
                len = 62;
            if (len > n)
                break;
            name = g_strndup ((const char *) d, len);
            d += len;
            n -= len;
            if (!g_utf8_validate (name, -1, NULL)) {
                g_free (name);
                break;
            }
            enc = sel == 255 ? encode (name) : g_strdup (name);
            g_free (name);
        } else
            enc = encode (NAMES[sel % G_N_ELEMENTS (NAMES)]);
        if (n < 2 || !g_utf8_validate (enc, -1, NULL) || g_utf8_strlen (enc, -1) > 31 || !*enc || g_hash_table_contains (seen, enc)) {
            g_free (enc);
            break;
        }
        len = d[0] | d[1] << 8;
        d += 2;
        n -= 2;
        if (len > n)
            len = n;
        c = gsf_outfile_new_child (ole, enc, FALSE);
        gsf_output_write (c, len, d);
        gsf_output_close (c);
        g_object_unref (c);
        g_hash_table_add (seen, enc);
        d += len;
        n -= len;
        count++;
    }
    gsf_output_close (GSF_OUTPUT (ole));
    g_object_unref (ole);
    put (inpath, gsf_output_memory_get_bytes (GSF_OUTPUT_MEMORY (mem)), gsf_output_size (mem));
    gsf_output_close (mem);
    g_object_unref (mem);
    g_hash_table_unref (seen);
    return count;
}

static int one (const uint8_t *d, size_t n)
{
    LibmsiDatabase *db, *in;
    int mode;
    if (n < 2)
        return 0;
    mode = *d++;
    n--;
    if (mode & 8)
        put (inpath, d, n);
    else
        build (d, n, mode);
    switch (mode & 3) {
    case 1:
        put (curpath, basedata, baselen);
        db = libmsi_database_new (curpath, LIBMSI_DB_FLAGS_TRANSACT, NULL, NULL);
        libmsi_database_apply_transform (db, inpath, NULL);
        look (db, mode & 4);
        if (mode & 16)
            modify (db);
        else
            libmsi_database_commit (db, NULL);
        g_object_unref (db);
        break;
    case 2:
        in = libmsi_database_new (inpath, LIBMSI_DB_FLAGS_READONLY, NULL, NULL);
        if (!in)
            break;
        put (curpath, basedata, baselen);
        db = libmsi_database_new (curpath, LIBMSI_DB_FLAGS_TRANSACT, NULL, NULL);
        libmsi_database_merge (db, in, mode & 16 ? "Errs" : NULL, NULL);
        look (db, mode & 4);
        libmsi_database_commit (db, NULL);
        g_object_unref (db);
        g_object_unref (in);
        break;
    default:
        in = libmsi_database_new (inpath, mode & 16 ? LIBMSI_DB_FLAGS_TRANSACT : LIBMSI_DB_FLAGS_READONLY, NULL, NULL);
        if (!in)
            break;
        look (in, mode & 4);
        if (mode & 16)
            modify (in);
        g_object_unref (in);
        if (mode & 16) {
            in = libmsi_database_new (inpath, LIBMSI_DB_FLAGS_READONLY, NULL, NULL);
            if (in) {
                look (in, 0);
                g_object_unref (in);
            }
        }
    }
    return 0;
}

int LLVMFuzzerTestOneInput (const uint8_t *d, size_t n)
{
    int fd;
    if (!scratch)
        init ();
    fd = lowest_fd ();
    one (d, n);
    check_fd (fd);
    return 0;
}
