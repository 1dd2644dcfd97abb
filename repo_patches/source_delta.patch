From 9b01cfb8032866ccbb22dd69fd9a7a1dd4f83e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 001/149] fix: DELETE removed the wrong rows when several rows
 match

Deleting a row shifts the following ones, so walk the matches from the last one.
---
 libmsi/delete.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libmsi/delete.c b/libmsi/delete.c
index 3a3623c..06e1c67 100644
--- a/libmsi/delete.c
+++ b/libmsi/delete.c
@@ -85,9 +85,14 @@ static unsigned delete_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     TRACE("deleting %d rows\n", rows);
 
-    /* blank out all the rows that match */
-    for ( i=0; i<rows; i++ )
-        dv->table->ops->delete_row( dv->table, i );
+    /* blank out all the rows that match, from the last one since deleting
+     * a row moves the ones that follow it */
+    for ( i=rows; i>0; i-- )
+    {
+        r = dv->table->ops->delete_row( dv->table, i - 1 );
+        if( r != LIBMSI_RESULT_SUCCESS )
+            return r;
+    }
 
     return LIBMSI_RESULT_SUCCESS;
 }
-- 
2.43.0


From ff212bf315e49f7a15ce097341a5c09476b588ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 002/149] fix: asking for the column info of a DELETE query
 dereferenced NULL

---
 libmsi/delete.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmsi/delete.c b/libmsi/delete.c
index 06e1c67..62700b0 100644
--- a/libmsi/delete.c
+++ b/libmsi/delete.c
@@ -118,7 +118,8 @@ static unsigned delete_view_get_dimensions( LibmsiView *view, unsigned *rows, un
     if( !dv->table )
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
-    *rows = 0;
+    if( rows )
+        *rows = 0;
 
     return dv->table->ops->get_dimensions( dv->table, NULL, cols );
 }
-- 
2.43.0


From 2e1f0f567a25073ce7b3704067ebeb77041cd76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 003/149] fix: committing a table with temporary rows
 overflowed the buffer or lost rows

Size the data after the persistent rows, and write all of those.
---
 libmsi/table.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 5e0a6f8..5ce16c7 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -871,7 +871,7 @@ err:
 static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned bytes_per_strref )
 {
     uint8_t *rawdata = NULL;
-    unsigned rawsize, i, j, row_size, row_count;
+    unsigned rawsize, i, j, row, row_size, row_count;
     unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* Nothing to do for non-persistent tables */
@@ -888,14 +888,12 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     TRACE("Saving %s\n", debugstr_a( t->name ) );
 
     row_size = msi_table_get_row_size( db, t->colinfo, t->col_count, bytes_per_strref );
-    row_count = t->row_count;
+    /* temporary rows are not saved */
+    row_count = 0;
     for (i = 0; i < t->row_count; i++)
     {
-        if (!t->data_persistent[i])
-        {
-            row_count = 1; /* yes, this is bizarre */
-            break;
-        }
+        if (t->data_persistent[i])
+            row_count++;
     }
     rawsize = row_count * row_size;
     rawdata = msi_alloc_zero( rawsize );
@@ -906,11 +904,12 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     }
 
     rawsize = 0;
-    for (i = 0; i < t->row_count; i++)
+    for (i = 0, row = 0; i < t->row_count; i++)
     {
         unsigned ofs = 0, ofs_mem = 0;
 
-        if (!t->data_persistent[i]) break;
+        if (!t->data_persistent[i])
+            continue;
 
         for (j = 0; j < t->col_count; j++)
         {
@@ -934,12 +933,13 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
             }
             for (k = 0; k < n; k++)
             {
-                rawdata[ofs * row_count + i * n + k] = t->data[i][ofs_mem + k];
+                rawdata[ofs * row_count + row * n + k] = t->data[i][ofs_mem + k];
             }
             ofs_mem += m;
             ofs += n;
         }
         rawsize += row_size;
+        row++;
     }
 
     TRACE("writing %d bytes\n", rawsize);
-- 
2.43.0


From 9c7e39be6c3109bec347e8ec7f885584b580be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 004/149] fix: a rejected INSERT left a partial row in the
 table

---
 libmsi/table.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 5ce16c7..ff4ac96 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1626,6 +1626,8 @@ static int find_insert_index( LibmsiTableView *tv, LibmsiRecord *rec )
     return high + 1;
 }
 
+static unsigned table_view_delete_row( LibmsiView *view, unsigned row );
+
 static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
@@ -1656,7 +1658,13 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
-    return table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    memset( tv->table->data[row], 0, tv->row_size );
+
+    r = table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        table_view_delete_row( view, row );
+
+    return r;
 }
 
 static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
-- 
2.43.0


From fcccf4e1906e6b98bfae1d93c8b06171b1cec109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 005/149] fix: strings used by temporary data only were not
 saved for persistent rows

Take a reference for every use, and do not let the 16-bit counts wrap.
---
 libmsi/string.c | 23 +++++++++++++++--------
 libmsi/table.c  | 15 ++++++++-------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 0b20c0b..d40e06a 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -221,6 +221,19 @@ static void set_st_entry( string_table *st, unsigned n, char *str, uint16_t refc
         st->freeslot = n + 1;
 }
 
+/* the reference counts are 16 bits wide in the file: never let them wrap to zero */
+static void add_string_refs( string_table *st, unsigned n, uint16_t refcount, enum StringPersistence persistence )
+{
+    uint16_t *refs;
+
+    if (persistence == StringPersistent)
+        refs = &st->strings[n].persistent_refcount;
+    else
+        refs = &st->strings[n].nonpersistent_refcount;
+
+    *refs = MIN( *refs + refcount, 0xffff );
+}
+
 static unsigned _libmsi_id_from_string( const string_table *st, const char *buffer, unsigned *id )
 {
     size_t sz;
@@ -271,10 +284,7 @@ static int msi_addstring( string_table *st, unsigned n, const char *data, int le
     {
         if( LIBMSI_RESULT_SUCCESS == _libmsi_id_from_string( st, data, &n ) )
         {
-            if (persistence == StringPersistent)
-                st->strings[n].persistent_refcount += refcount;
-            else
-                st->strings[n].nonpersistent_refcount += refcount;
+            add_string_refs( st, n, refcount, persistence );
             return n;
         }
         n = st_find_free_entry( st );
@@ -315,10 +325,7 @@ int _libmsi_add_string( string_table *st, const char *data, int len, uint16_t re
 
     if( _libmsi_id_from_string_utf8( st, data, &n ) == LIBMSI_RESULT_SUCCESS )
     {
-        if (persistence == StringPersistent)
-            st->strings[n].persistent_refcount += refcount;
-        else
-            st->strings[n].nonpersistent_refcount += refcount;
+        add_string_refs( st, n, refcount, persistence );
         return n;
     }
 
diff --git a/libmsi/table.c b/libmsi/table.c
index ff4ac96..54473c1 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1364,20 +1364,21 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             }
             else if ( tv->columns[i].type & MSITYPE_STRING )
             {
+                const char *sval;
                 unsigned x;
 
-                if ( r != LIBMSI_RESULT_SUCCESS )
-                {
-                    const char *sval = _libmsi_record_get_string_raw( rec, i + 1 );
-                    val = _libmsi_add_string( tv->db->strings, sval, -1, 1,
-                      persistent ? StringPersistent : StringNonPersistent );
-                }
-                else
+                if ( r == LIBMSI_RESULT_SUCCESS )
                 {
                     table_view_fetch_int(&tv->view, row, i + 1, &x);
                     if (val == x)
                         continue;
                 }
+
+                /* take a reference, even if the string is already in the
+                 * table: it may be used by temporary data only */
+                sval = _libmsi_record_get_string_raw( rec, i + 1 );
+                val = _libmsi_add_string( tv->db->strings, sval, -1, 1,
+                  persistent ? StringPersistent : StringNonPersistent );
             }
             else
             {
-- 
2.43.0


From 332b7c7a6f514db81e7256e1c07defa9ce468c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 006/149] fix: strings over 64k with several references were
 loaded with a wrong length

The high word of the length is in the dummy entry, the reference count in the next one.
---
 libmsi/string.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index d40e06a..31f32f8 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -540,7 +540,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
          */
         if (GUINT16_FROM_LE(pool[i*2]) == 0)
         {
-            len = (GUINT16_FROM_LE(pool[i*2+3]) << 16) + GUINT16_FROM_LE(pool[i*2+2]);
+            if ( i + 1 >= count )
+            {
+                g_critical("string table corrupt?\n");
+                break;
+            }
+            len = (refs << 16) + GUINT16_FROM_LE(pool[i*2+2]);
+            refs = GUINT16_FROM_LE(pool[i*2+3]);
             i += 2;
         }
         else
-- 
2.43.0


From 41327ffe2e99e79b986e3bcb667f374edbd08d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:31 +0000
Subject: [PATCH 007/149] fix: committing strings the codepage cannot represent
 lost them silently

---
 libmsi/string.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 31f32f8..7ddb9f9 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -394,8 +394,11 @@ static unsigned _libmsi_string_id( const string_table *st, unsigned id, char *bu
     cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
     str = g_convert_with_iconv(str_utf8, -1, cpconv, NULL, &len, NULL);
     g_iconv_close(cpconv);
+    if( !str )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
     if( *sz < len )
     {
+        msi_free(str);
         *sz = len;
         return LIBMSI_RESULT_MORE_DATA;
     }
@@ -464,6 +467,8 @@ static void string_totalsize( const string_table *st, unsigned *datasize, unsign
             cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
             str = g_convert_with_iconv( st->strings[i].str, -1, cpconv, NULL, &len, NULL);
             g_iconv_close(cpconv);
+            if( !str )
+                len = 0; /* cannot be saved, msi_save_string_table will fail */
 	    msi_free(str);
             (*datasize) += len;
             if (len>0xffff)
@@ -638,8 +643,9 @@ unsigned msi_save_string_table( const string_table *st, LibmsiDatabase *db, unsi
         r = _libmsi_string_id( st, n, data+used, &sz );
         if( r != LIBMSI_RESULT_SUCCESS )
         {
-            g_critical("failed to fetch string\n");
-            sz = 0;
+            g_warning("string %s cannot be saved in codepage %u\n",
+                      debugstr_a(msi_string_lookup_id( st, n )), st->codepage);
+            goto err;
         }
 
         if (sz == 0) {
-- 
2.43.0


From 9cc9c89ee9f4421d9db03f97b8eb18875496b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 008/149] fix: INSERT into a table with 32 columns stored
 nothing

---
 libmsi/query.h  | 3 +++
 libmsi/select.c | 4 ++--
 libmsi/table.c  | 8 ++++----
 libmsi/update.c | 2 +-
 libmsi/where.c  | 8 ++++----
 5 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/libmsi/query.h b/libmsi/query.h
index 78791fd..3988ffe 100644
--- a/libmsi/query.h
+++ b/libmsi/query.h
@@ -52,6 +52,9 @@
 #define EXPR_COL_NUMBER32 11
 #define EXPR_UNARY    12
 
+/* the mask of all the columns of a table, which has 32 of them at most */
+#define COLUMNS_MASK(n)  ((n) >= 32 ? 0xffffffffu : (1u << (n)) - 1)
+
 struct sql_str {
     const char *data;
     int len;
diff --git a/libmsi/select.c b/libmsi/select.c
index c4ab6fd..6e63293 100644
--- a/libmsi/select.c
+++ b/libmsi/select.c
@@ -106,7 +106,7 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<sv->num_cols) )
+    if ( mask & ~COLUMNS_MASK(sv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* find the number of columns in the table below */
@@ -125,7 +125,7 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
         r = _libmsi_record_copy_field( rec, i+1, expanded, sv->cols[ i ] );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
-        expanded_mask |= (1<<(sv->cols[i]-1));
+        expanded_mask |= 1u << (sv->cols[i]-1);
     }
 
     /* set the row in the underlying table */
diff --git a/libmsi/table.c b/libmsi/table.c
index 54473c1..dea7dbc 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1317,7 +1317,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<tv->num_cols) )
+    if ( mask & ~COLUMNS_MASK(tv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     for ( i = 0; i < tv->num_cols; i++ )
@@ -1325,7 +1325,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         bool persistent;
 
         /* only update the fields specified in the mask */
-        if ( !(mask&(1<<i)) )
+        if ( !(mask & (1u<<i)) )
             continue;
 
         persistent = (tv->table->persistent != LIBMSI_CONDITION_FALSE) &&
@@ -1661,7 +1661,7 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
     tv->table->data_persistent[row] = !temporary;
     memset( tv->table->data[row], 0, tv->row_size );
 
-    r = table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    r = table_view_set_row( view, row, rec, COLUMNS_MASK(tv->num_cols) );
     if( r != LIBMSI_RESULT_SUCCESS )
         table_view_delete_row( view, row );
 
@@ -2518,7 +2518,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                 else if (mask & 1)
                 {
                     TRACE("modifying full row [%d]:\n", row);
-                    r = table_view_set_row( &tv->view, row, rec, (1 << tv->num_cols) - 1 );
+                    r = table_view_set_row( &tv->view, row, rec, COLUMNS_MASK(tv->num_cols) );
                     if (r != LIBMSI_RESULT_SUCCESS)
                         g_warning("failed to modify row %u\n", r);
                 }
diff --git a/libmsi/update.c b/libmsi/update.c
index 95effb4..861c183 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -105,7 +105,7 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     for ( i=0; i<row_count; i++ )
     {
-        r = wv->ops->set_row( wv, i, values, (1 << col_count) - 1 );
+        r = wv->ops->set_row( wv, i, values, COLUMNS_MASK(col_count) );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
     }
diff --git a/libmsi/where.c b/libmsi/where.c
index f0a3082..d6ca4bc 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -280,7 +280,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    if (mask >= 1 << wv->col_count)
+    if (mask & ~COLUMNS_MASK(wv->col_count))
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     do
@@ -288,7 +288,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         for (i = 0; i < table->col_count; i++) {
             unsigned type;
 
-            if (!(mask_copy & (1 << i)))
+            if (!(mask_copy & (1u << i)))
                 continue;
             r = table->view->ops->get_column_info(table->view, i + 1, NULL,
                                             &type, NULL, NULL );
@@ -297,7 +297,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             if (type & MSITYPE_KEY)
                 return LIBMSI_RESULT_FUNCTION_FAILED;
         }
-        mask_copy >>= table->col_count;
+        mask_copy = table->col_count < 32 ? mask_copy >> table->col_count : 0;
     }
     while (mask_copy && (table = table->next));
 
@@ -307,7 +307,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     {
         const unsigned col_count = table->col_count;
         LibmsiRecord *reduced;
-        unsigned reduced_mask = (mask >> offset) & ((1 << col_count) - 1);
+        unsigned reduced_mask = offset < 32 ? (mask >> offset) & COLUMNS_MASK(col_count) : 0;
 
         if (!reduced_mask)
         {
-- 
2.43.0


From 546e7a630b74b6fe7de1e20572e456112f520fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 009/149] fix: UPDATE with a literal in SET took the WHERE
 parameters from the wrong place

---
 libmsi/update.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmsi/update.c b/libmsi/update.c
index 861c183..6644112 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -64,11 +64,13 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
     {
         r = libmsi_record_get_field_count(record);
 
+        /* the first markers belong to the values to set */
         for (i = 0; col; col = col->next)
-            i++;
+            if (col->val->type == EXPR_WILDCARD)
+                i++;
 
         cols_count = i;
-        where_count = r - i;
+        where_count = r > i ? r - i : 0;
 
         if (where_count > 0)
         {
-- 
2.43.0


From dfaf846cb2d83a67ab25db18e86006ecebc4e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 010/149] fix: a string comparison in a join could shift the
 following parameters

---
 libmsi/where.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index d6ca4bc..154497c 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -512,15 +512,14 @@ static unsigned expr_eval_strcmp( LibmsiWhereView *wv, const unsigned rows[], co
 {
     int sr;
     const char *l_str, *r_str;
-    unsigned r;
+    unsigned rl, rr;
 
     *val = true;
-    r = expr_eval_string(wv, rows, expr->left, record, &l_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
-        return r;
-    r = expr_eval_string(wv, rows, expr->right, record, &r_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
-        return r;
+    /* always evaluate both sides: each may consume a parameter */
+    rl = expr_eval_string(wv, rows, expr->left, record, &l_str);
+    rr = expr_eval_string(wv, rows, expr->right, record, &r_str);
+    if (rl == LIBMSI_RESULT_CONTINUE || rr == LIBMSI_RESULT_CONTINUE)
+        return LIBMSI_RESULT_CONTINUE;
 
     if( l_str == r_str ||
         ((!l_str || !*l_str) && (!r_str || !*r_str)) )
-- 
2.43.0


From 64e3ec6b86cc794dfd3c189d1e0e30ecc529345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 011/149] fix: executing a query with markers but no record
 dereferenced NULL

---
 libmsi/where.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index 154497c..6be2d5d 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -495,7 +495,13 @@ static unsigned expr_eval_string( LibmsiWhereView *wv, const unsigned rows[],
         break;
 
     case EXPR_WILDCARD:
-        *str = _libmsi_record_get_string_raw(record, ++wv->rec_index);
+        if (record)
+            *str = _libmsi_record_get_string_raw(record, ++wv->rec_index);
+        else
+        {
+            *str = NULL;
+            r = LIBMSI_RESULT_INVALID_PARAMETER;
+        }
         break;
 
     default:
@@ -518,6 +524,8 @@ static unsigned expr_eval_strcmp( LibmsiWhereView *wv, const unsigned rows[], co
     /* always evaluate both sides: each may consume a parameter */
     rl = expr_eval_string(wv, rows, expr->left, record, &l_str);
     rr = expr_eval_string(wv, rows, expr->right, record, &r_str);
+    if (rl == LIBMSI_RESULT_INVALID_PARAMETER || rr == LIBMSI_RESULT_INVALID_PARAMETER)
+        return LIBMSI_RESULT_INVALID_PARAMETER;
     if (rl == LIBMSI_RESULT_CONTINUE || rr == LIBMSI_RESULT_CONTINUE)
         return LIBMSI_RESULT_CONTINUE;
 
@@ -578,6 +586,8 @@ static unsigned where_view_evaluate( LibmsiWhereView *wv, const unsigned rows[],
         return expr_eval_strcmp( wv, rows, &cond->u.expr, val, record );
 
     case EXPR_WILDCARD:
+        if( !record )
+            return LIBMSI_RESULT_INVALID_PARAMETER;
         *val = libmsi_record_get_int( record, ++wv->rec_index );
         return LIBMSI_RESULT_SUCCESS;
 
-- 
2.43.0


From 0e54d60b3bbf5425d041f2b9a84af3de4af8d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 012/149] fix: INSERT with too few values reported success
 without inserting

---
 libmsi/insert.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/insert.c b/libmsi/insert.c
index 11edffe..a5828ec 100644
--- a/libmsi/insert.c
+++ b/libmsi/insert.c
@@ -223,7 +223,10 @@ static unsigned insert_view_execute( LibmsiView *view, LibmsiRecord *record )
      */
     values = msi_query_merge_record( col_count, iv->vals, record );
     if( !values )
+    {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto err;
+    }
 
     r = msi_arrange_record( iv, &values );
     if( r != LIBMSI_RESULT_SUCCESS )
-- 
2.43.0


From ee740f46fd6059032ca7246a1afd1b65b5620430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 013/149] fix: a rejected UPDATE left some of its columns
 changed

---
 libmsi/table.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libmsi/table.c b/libmsi/table.c
index dea7dbc..6642f05 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1320,6 +1320,18 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if ( mask & ~COLUMNS_MASK(tv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
+    /* reject the whole row before changing any of its fields */
+    for ( i = 0; i < tv->num_cols; i++ )
+    {
+        if ( !(mask & (1u<<i)) || libmsi_record_is_null( rec, i + 1 ) ||
+             MSITYPE_IS_BINARY(tv->columns[i].type) || (tv->columns[i].type & MSITYPE_STRING) )
+            continue;
+
+        r = get_table_value_from_record (tv, rec, i + 1, &val);
+        if ( r != LIBMSI_RESULT_SUCCESS )
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+    }
+
     for ( i = 0; i < tv->num_cols; i++ )
     {
         bool persistent;
-- 
2.43.0


From e9203d0e2e7659a8c0132bf8feef55e66f78b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 014/149] fix: ORDER BY used only the first of its columns

---
 libmsi/where.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index 6be2d5d..7a76032 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -970,7 +970,7 @@ static unsigned where_view_sort(LibmsiView *view, column_info *columns)
 
     column = columns;
 
-    for (i = 0; i < count; i++)
+    for (i = 0; i < count; i++, column = column->next)
     {
         orderinfo->columns[i].unparsed.column = column->column;
         orderinfo->columns[i].unparsed.table = column->table;
-- 
2.43.0


From a8f0376984b8b9fd90d22cdd8ea360c1437e7aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 015/149] fix: UPDATE without WHERE could change key columns
 and create duplicate keys

---
 libmsi/update.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libmsi/update.c b/libmsi/update.c
index 6644112..8c5f1c7 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -105,6 +105,18 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
         goto done;
     }
 
+    /* as with a WHERE clause, keys cannot change: they could clash */
+    for ( i=1; row_count && i<=col_count; i++ )
+    {
+        unsigned type;
+
+        r = wv->ops->get_column_info( wv, i, NULL, &type, NULL, NULL );
+        if (r == LIBMSI_RESULT_SUCCESS && (type & MSITYPE_KEY))
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+        if (r != LIBMSI_RESULT_SUCCESS)
+            goto done;
+    }
+
     for ( i=0; i<row_count; i++ )
     {
         r = wv->ops->set_row( wv, i, values, COLUMNS_MASK(col_count) );
-- 
2.43.0


From 9d22eefb5beea04343fbb0ee1a440414380e1a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 016/149] fix: ALTER TABLE FREE of an emptied table brought its
 deleted rows back

---
 libmsi/table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 6642f05..7db2a2b 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1889,7 +1889,8 @@ static unsigned table_view_release(LibmsiView *view)
     ref = __sync_sub_and_fetch(&tv->table->ref_count, 1);
     if (ref == 0)
     {
-        if (!tv->table->row_count)
+        /* a persistent table may hold uncommitted changes */
+        if (!tv->table->row_count && tv->table->persistent == LIBMSI_CONDITION_FALSE)
         {
             list_remove(&tv->table->entry);
             free_table(tv->table);
-- 
2.43.0


From 9faf8af9d3c8f452f3244560dffbe04057b33e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 017/149] fix: storages lost their class id and empty
 sub-storages when committed

---
 libmsi/libmsi-database.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e0c68cc..67ecb7e 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2290,13 +2290,18 @@ libmsi_database_apply_transform (LibmsiDatabase *db,
 static int gsf_infile_copy(GsfInfile *inf, GsfOutfile *outf)
 {
     int n = gsf_infile_num_children(inf);
+    uint8_t uuid[16];
     int i;
 
+    if (GSF_IS_INFILE_MSOLE(inf) && GSF_IS_OUTFILE_MSOLE(outf) &&
+        gsf_infile_msole_get_class_id(GSF_INFILE_MSOLE(inf), uuid))
+        gsf_outfile_msole_set_class_id(GSF_OUTFILE_MSOLE(outf), uuid);
+
     for (i = 0; i < n; i++) {
         const char *name = gsf_infile_name_by_index(inf, i);
         GsfInput *child = gsf_infile_child_by_index(inf, i);
         GsfInfile *childf = GSF_IS_INFILE (child) ? GSF_INFILE (child) : NULL;
-        gboolean is_dir = childf && gsf_infile_num_children (childf) > 0;
+        gboolean is_dir = childf && gsf_infile_num_children (childf) >= 0;
         GsfOutput *dest = gsf_outfile_new_child(outf, name, is_dir);
         gboolean ok;
 
-- 
2.43.0


From 471a85f1b72e743a516c1d3d078b78e5d4a8e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 018/149] fix: inserting a further storage read an
 uninitialised pointer

---
 libmsi/storages.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmsi/storages.c b/libmsi/storages.c
index 3914305..d78d365 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -49,8 +49,9 @@ static bool storages_set_table_size(LibmsiStorageView *sv, unsigned size)
 {
     if (size >= sv->max_storages)
     {
+        sv->storages = msi_realloc_zero(sv->storages, sv->max_storages * sizeof(STORAGE *),
+                                        sv->max_storages * 2 * sizeof(STORAGE *));
         sv->max_storages *= 2;
-        sv->storages = msi_realloc(sv->storages, sv->max_storages * sizeof(STORAGE *));
         if (!sv->storages)
             return false;
     }
-- 
2.43.0


From f54319366ff9aa1e8747383bf4d5f2ecaf587bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 019/149] fix: data that is no storage was accepted by
 _Storages and then lost

---
 libmsi/libmsi-database.c | 2 +-
 libmsi/storages.c        | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 67ecb7e..769547a 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -248,7 +248,7 @@ unsigned msi_create_storage( LibmsiDatabase *db, const char *stname, GsfInput *s
     LibmsiStorage *storage;
     GsfInfile *origstg = NULL;
     bool found = false;
-    unsigned r;
+    unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
 
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_ACCESS_DENIED;
diff --git a/libmsi/storages.c b/libmsi/storages.c
index d78d365..9d26366 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -144,7 +144,13 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
         goto done;
     }
 
-    msi_create_storage(sv->db, name, stm);
+    r = msi_create_storage(sv->db, name, stm);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        g_warning("failed to create storage: %08x\n", r);
+        goto done;
+    }
+
     storage = create_storage(sv, name);
     if (!storage)
         r = LIBMSI_RESULT_FUNCTION_FAILED;
-- 
2.43.0


From e4028514c0f6ad331f18a552e324f207316d4ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 020/149] fix: committing nested storages left them unclosed
 and wrote a corrupt file

---
 libmsi/libmsi-database.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 769547a..03a7e52 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2310,6 +2310,8 @@ static int gsf_infile_copy(GsfInfile *inf, GsfOutfile *outf)
         else
             ok = gsf_input_copy(child, dest);
 
+        if (!gsf_output_close(dest))
+            ok = false;
         g_object_unref(G_OBJECT(child));
         g_object_unref(G_OBJECT(dest));
         if (!ok)
-- 
2.43.0


From fda37b0d76413286e729a69eaee417c9ac27410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 021/149] fix: a crash during commit could leave no database
 file

---
 libmsi/libmsi-database.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 03a7e52..98c03a5 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -23,6 +23,7 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <sys/stat.h>
+#include <glib/gstdio.h>
 
 #include "libmsi-enums.h"
 #include "libmsi-database.h"
@@ -603,8 +604,8 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
             unlink( db->outpath );
             msi_free( db->outpath );
         } else if (db->rename_outpath) {
-            unlink(db->path);
-            rename(db->outpath, db->path);
+            /* replaces the old file in one step */
+            g_rename(db->outpath, db->path);
             msi_free( db->outpath );
         } else {
             msi_free( db->path );
-- 
2.43.0


From 3d658f2a088996b6a727c75bde2e5a6037ba437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 022/149] fix: commit ignored write errors and then removed the
 old file

---
 libmsi/libmsi-database.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 98c03a5..4676478 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -576,6 +576,8 @@ void append_storage_to_db( LibmsiDatabase *db, GsfInfile *stg )
 
 LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
 {
+    LibmsiResult ret = LIBMSI_RESULT_SUCCESS;
+
     TRACE("%p %d\n", db, committed);
 
     if ( db->strings )
@@ -592,7 +594,11 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
 
     if ( db->outfile )
     {
-        gsf_output_close(GSF_OUTPUT(db->outfile));
+        if (!gsf_output_close(GSF_OUTPUT(db->outfile)) && committed) {
+            g_warning("failed to write %s\n", debugstr_a(db->outpath));
+            ret = LIBMSI_RESULT_FUNCTION_FAILED;
+            committed = false;
+        }
         g_object_unref(G_OBJECT(db->outfile));
         db->outfile = NULL;
     }
@@ -605,7 +611,11 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
             msi_free( db->outpath );
         } else if (db->rename_outpath) {
             /* replaces the old file in one step */
-            g_rename(db->outpath, db->path);
+            if (g_rename(db->outpath, db->path) != 0) {
+                g_warning("failed to replace %s\n", debugstr_a(db->path));
+                unlink( db->outpath );
+                ret = LIBMSI_RESULT_FUNCTION_FAILED;
+            }
             msi_free( db->outpath );
         } else {
             msi_free( db->path );
@@ -613,7 +623,7 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
         }
     }
     db->outpath = NULL;
-    return LIBMSI_RESULT_SUCCESS;
+    return ret;
 }
 
 LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
@@ -2427,10 +2437,19 @@ libmsi_database_commit (LibmsiDatabase *db, GError **error)
 
     /* FIXME: unlock the database */
 
-    _libmsi_database_close(db, true);
-    db->flags &= ~LIBMSI_DB_FLAGS_CREATE;
-    db->flags |= LIBMSI_DB_FLAGS_TRANSACT;
-    _libmsi_database_open(db);
+    r = _libmsi_database_close(db, true);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "failed to write database r=%08x\n", r);
+
+    if (r != LIBMSI_RESULT_SUCCESS && db->flags & LIBMSI_DB_FLAGS_CREATE) {
+        /* there is no file yet */
+        db->strings = msi_init_string_table (&db->bytes_per_strref);
+    } else {
+        db->flags &= ~LIBMSI_DB_FLAGS_CREATE;
+        db->flags |= LIBMSI_DB_FLAGS_TRANSACT;
+        _libmsi_database_open(db);
+    }
     _libmsi_database_start_transaction(db);
 
 end:
-- 
2.43.0


From c3fabbd01cfa05fb91489e4ef5924ddc66f4c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:23 +0000
Subject: [PATCH 023/149] fix: exported tables were unreadable if a string has
 a tab or line break

---
 libmsi/libmsi-database.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 4676478..177d1a5 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -738,11 +738,12 @@ static void msi_parse_line(char **line, char ***entries, unsigned *num_entries,
 
         while (chars_left && *ptr != '\t' && *ptr != '\n' && *ptr != '\r')
         {
-            if (!*ptr) *ptr = '\n'; /* convert embedded nulls to \n */
-            if (ptr > *line && *ptr == '\x19' && *(ptr - 1) == '\x11')
+            switch (*ptr)
             {
-                *ptr = '\n';
-                *(ptr - 1) = '\r';
+            case 0: *ptr = '\n'; break; /* convert embedded nulls to \n */
+            case '\x10': *ptr = '\t'; break;
+            case '\x11': *ptr = '\r'; break;
+            case '\x19': *ptr = '\n'; break;
             }
             ptr++;
             chars_left--;
@@ -1231,6 +1232,21 @@ end:
     return spliced != -1;
 
 }
+
+/* the inverse of what msi_parse_line does: data must not look like separators */
+static void msi_export_escape(char *str)
+{
+    for (; *str; str++)
+    {
+        switch (*str)
+        {
+        case '\t': *str = '\x10'; break;
+        case '\r': *str = '\x11'; break;
+        case '\n': *str = '\x19'; break;
+        }
+    }
+}
+
 static unsigned msi_export_record(int fd, LibmsiRecord *row,
                                   unsigned start, GFile *table_dir,
                                   GError **error)
@@ -1253,6 +1269,7 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
             str = libmsi_record_get_string (row, i);
             if (!str)
                 goto end;
+            msi_export_escape (str);
         }
 
         /* TODO full_write */
@@ -1328,6 +1345,7 @@ static LibmsiResult msi_export_summaryinfo (LibmsiDatabase *db, int fd, GError *
             gchar *val = summary_info_as_string (si, i);
             if (!val)
                 goto end;
+            msi_export_escape (val);
             str = g_strdup_printf ("%d\t%s\r\n", i, val);
             sz = strlen (str);
             if (write (fd, str, sz) != sz)
-- 
2.43.0


From 19f891d9563a255ccd010bedfaf06b1ecc633bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:23 +0000
Subject: [PATCH 024/149] fix: tables whose name is an SQL keyword could not be
 exported

---
 libmsi/libmsi-database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 177d1a5..dd5887a 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1366,7 +1366,7 @@ end:
 static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *table,
                                         int fd, GError **error)
 {
-    static const char query[] = "select * from %s";
+    static const char query[] = "select * from `%s`";
     LibmsiRecord *rec = NULL;
     LibmsiQuery *view = NULL;
     LibmsiResult r;
-- 
2.43.0


From d8b12220803cf281204111f56e6a17f52278763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:23 +0000
Subject: [PATCH 025/149] fix: importing malformed table files overran buffers

---
 libmsi/libmsi-database.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index dd5887a..22ecd33 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -697,7 +697,7 @@ static char *msi_read_text_archive(const char *path, unsigned *len)
     if (!g_file_get_contents(path, &data, &nread, NULL))
         return NULL;
 
-    while (!data[nread - 1]) nread--;
+    while (nread && !data[nread - 1]) nread--;
     *len = nread;
     return data;
 }
@@ -795,11 +795,10 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
     char *p;
     const char *type;
     unsigned sql_size = 1, i, len;
-    char expanded[128], *ptr;
-    char size[10], comma[2], extra[30];
+    char *expanded, *ptr;
+    char comma[2], extra[30];
 
-    static const char column_fmt[] = "`%s` %s%s%s%s ";
-    static const char size_fmt[] = "(%s)";
+    static const char column_fmt[] = "`%s` %s%s%s%s%s%s ";
     static const char type_char[] = "CHAR";
     static const char type_int[] = "INT";
     static const char type_long[] = "LONG";
@@ -814,7 +813,7 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
     for (i = 0; i < num_columns; i++)
     {
         type = NULL;
-        comma[1] = size[0] = extra[0] = '\0';
+        comma[1] = extra[0] = '\0';
 
         if (i == num_columns - 1)
             comma[0] = '\0';
@@ -833,14 +832,12 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
             case 'L':
                 strcat(extra, localizable);
                 type = type_char;
-                sprintf(size, size_fmt, ptr);
                 break;
             case 's':
                 strcpy(extra, type_notnull);
                 /* fall through */
             case 'S':
                 type = type_char;
-                sprintf(size, size_fmt, ptr);
                 break;
             case 'i':
                 strcpy(extra, type_notnull);
@@ -869,18 +866,22 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
                 return NULL;
         }
 
-        sprintf(expanded, column_fmt, columns_data[i], type, size, extra, comma);
+        expanded = g_strdup_printf(column_fmt, columns_data[i], type,
+                                   type == type_char ? "(" : "", type == type_char ? ptr : "",
+                                   type == type_char ? ")" : "", extra, comma);
         sql_size += strlen(expanded);
 
         p = msi_realloc(columns, sql_size * sizeof(char));
         if (!p)
         {
+            g_free(expanded);
             msi_free(columns);
             return NULL;
         }
         columns = p;
 
         strcat(columns, expanded);
+        g_free(expanded);
     }
 
     return columns;
@@ -1067,6 +1068,7 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     unsigned num_types = 0;
     unsigned num_columns = 0;
     unsigned num_records = 0;
+    unsigned num_fields;
     char **columns = NULL;
     char **types = NULL;
     char **labels = NULL;
@@ -1112,9 +1114,14 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     /* read in the table records */
     while (len)
     {
-        msi_parse_line( &ptr, &records[num_records], NULL, &len );
+        msi_parse_line( &ptr, &records[num_records], &num_fields, &len );
 
         num_records++;
+        if (num_fields < num_columns)
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+            goto done;
+        }
         temp_records = msi_realloc(records, (num_records + 1) * sizeof(char **));
         if (!temp_records)
         {
@@ -1137,6 +1144,13 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     {
         if (!table_view_exists(db, labels[0]))
         {
+            /* a table has at least one key */
+            if (num_labels < 2)
+            {
+                r = LIBMSI_RESULT_FUNCTION_FAILED;
+                goto done;
+            }
+
             r = msi_add_table_to_db( db, columns, types, labels, num_labels, num_columns );
             if (r != LIBMSI_RESULT_SUCCESS)
             {
-- 
2.43.0


From eac4157d3b2df9ad90ac89ba629829ec1c3fa217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:23 +0000
Subject: [PATCH 026/149] fix: exporting binary data could write outside of the
 table's directory

---
 libmsi/libmsi-database.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 22ecd33..59f994e 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1218,6 +1218,7 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
     GInputStream *in = NULL;
     GOutputStream *out = NULL;
     gssize spliced = -1;
+    gchar **parts;
 
     if (!table_dir)
         goto end;
@@ -1228,7 +1229,10 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
         goto end;
     }
 
-    *str = g_strdup (g_object_get_data (G_OBJECT (gsfin), "stname"));
+    /* a file of this directory, whatever the name */
+    parts = g_strsplit (g_object_get_data (G_OBJECT (gsfin), "stname"), "/", -1);
+    *str = g_strjoinv ("%2F", parts);
+    g_strfreev (parts);
     file = g_file_get_child (table_dir, *str);
     out = G_OUTPUT_STREAM (g_file_replace (file, NULL, FALSE, 0, NULL, error));
     in = G_INPUT_STREAM (libmsi_istream_new (gsfin));
@@ -1283,8 +1287,8 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
             str = libmsi_record_get_string (row, i);
             if (!str)
                 goto end;
-            msi_export_escape (str);
         }
+        msi_export_escape (str);
 
         /* TODO full_write */
         if (write (fd, str, strlen (str)) != strlen (str)) {
-- 
2.43.0


From 58f7f049c7b1ba31b2e41eb582af0817736ab360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 027/149] fix: msibuild reported success if a stream could not
 be loaded

---
 tools/msibuild.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index ef7c875..435e20f 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -183,7 +183,8 @@ static gboolean add_stream(const char *stream, const char *file, GError **error)
     rec = libmsi_record_new(2);
     libmsi_record_set_string(rec, 1, stream);
     if (!libmsi_record_load_stream(rec, 2, file)) {
-        fprintf(stderr, "failed to load stream (%u)\n", r);
+        g_set_error(error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_FUNCTION_FAILED,
+                    "failed to load stream from %s", file);
         goto end;
     }
 
-- 
2.43.0


From 983cbf1203b3c08625a78f187647e7bf77d80b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 028/149] fix: msibuild looped forever on an unknown or
 incomplete option

---
 tools/msibuild.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index 435e20f..50e7fca 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -324,7 +324,11 @@ int main(int argc, char *argv[])
             argc--, argv++;
             break;
         case 'a':
-            if (argc < 3) break;
+            if (argc < 3)
+            {
+                show_usage();
+                return 1;
+            }
             if (!add_stream(argv[1], argv[2], &error))
                 goto end;
             argc -= 3, argv += 3;
@@ -332,7 +336,7 @@ int main(int argc, char *argv[])
         default:
             fprintf(stdout, "unknown option\n");
             show_usage();
-            break;
+            return 1;
         }
     }
 
-- 
2.43.0


From 47e1cde428603b23ad2bd444686e6742819dc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 029/149] fix: msibuild -s skipped the option that follows

---
 tools/msibuild.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index 50e7fca..4665cca 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -299,7 +299,7 @@ int main(int argc, char *argv[])
                                   n > 3 ? argv[3] : NULL,
                                   n > 4 ? argv[4] : NULL, &error))
                 goto end;
-            argc -= n + 1, argv += n + 1;
+            argc -= n, argv += n;
             break;
         case 'i':
             do {
-- 
2.43.0


From 207aea9a2f6756ab66ad73528bdfe5428902b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 030/149] fix: msibuild printed its usage instead of the error
 of a failed import or query

---
 tools/msibuild.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index 4665cca..3003c4c 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -232,7 +232,7 @@ static int do_query(const char *sql, void *opaque)
 
 end:
     if (query) {
-        libmsi_query_close(query, error);
+        libmsi_query_close(query, NULL);
         g_object_unref(query);
     }
 
@@ -304,7 +304,7 @@ int main(int argc, char *argv[])
         case 'i':
             do {
                 if (!import_table(argv[1], &error))
-                    break;
+                    goto end;
 
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
@@ -317,7 +317,7 @@ int main(int argc, char *argv[])
                     ret = sql_get_statement("", do_query, &error);
                 }
                 if (ret) {
-                    break;
+                    goto end;
                 }
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
-- 
2.43.0


From 9b50a4c91312c276da45942376c5d0b798e6e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 031/149] fix: msibuild -q failed if white space precedes a
 statement

---
 tools/sqldelim.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/sqldelim.c b/tools/sqldelim.c
index ed2e2b1..0cf6d12 100644
--- a/tools/sqldelim.c
+++ b/tools/sqldelim.c
@@ -230,7 +230,8 @@ stmt:
             cont = false;
             stmt = g_strndup(str.str, str.len);
             g_string_erase(&str, 0, str.len);
-            if (stmt[0]) {
+            /* there may be white space between statements */
+            if (stmt[strspn(stmt, " \t\r\n\f")]) {
                 ret = fn(stmt, opaque);
             }
             free(stmt);
-- 
2.43.0


From 3d3e2efc29588a0396911cc529d007b3df691f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 032/149] fix: msiinfo export -s wrote a stray comma if the
 first column is null

---
 tools/msiinfo.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index f029ef8..ae788e7 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -512,9 +512,11 @@ static gboolean export_insert(const char *table,
 {
     guint num_columns = libmsi_record_get_field_count(names);
     gchar *name, *type;
+    gboolean first;
     guint i;
     char *s;
 
+    first = TRUE;
     printf("INSERT INTO `%s` (", table);
     for (i = 1; i <= num_columns; i++)
     {
@@ -525,13 +527,15 @@ static gboolean export_insert(const char *table,
         name = libmsi_record_get_string(names, i);
         g_return_val_if_fail(name != NULL, FALSE);
 
-        if (i > 1) {
+        if (!first) {
             printf(", ");
         }
+        first = FALSE;
 
         printf("`%s`", name);
         g_free(name);
     }
+    first = TRUE;
     printf(") VALUES (");
     for (i = 1; i <= num_columns; i++)
     {
@@ -539,9 +543,10 @@ static gboolean export_insert(const char *table,
             continue;
         }
 
-        if (i > 1) {
+        if (!first) {
             printf(", ");
         }
+        first = FALSE;
 
         type = libmsi_record_get_string(types, i);
         g_return_val_if_fail(type != NULL, FALSE);
-- 
2.43.0


From 3552e29be10281da9ddc25d89bb12af18f5b8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 033/149] fix: msiinfo export -s changed strings with
 backslashes or line breaks

---
 tools/msiinfo.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index ae788e7..06cdc11 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -495,9 +495,7 @@ static void print_quoted_string(const char *s)
     putchar('\'');
     for (; *s; s++) {
         switch (*s) {
-        case '\n': putchar('\\'); putchar('n'); break;
-        case '\r': putchar('\\'); putchar('r'); break;
-        case '\\': putchar('\\'); putchar('\\'); break;
+        /* there are no other escapes in this SQL dialect */
         case '\'': putchar('\\'); putchar('\''); break;
         default: putchar(*s);
         }
-- 
2.43.0


From eb814beeb7c7fba184683ba19c4289db44f179d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 034/149] fix: msiinfo export -s failed for a table without
 rows

---
 tools/msiinfo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index 06cdc11..1c90ea9 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -611,6 +611,7 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
 
     if (!export_create_table(table, name, type, keys))
         goto done;
+    success = TRUE;
 
     /* write out row 4 onwards, the data */
     while ((rec = libmsi_query_fetch(query, &err))) {
-- 
2.43.0


From cfb8dad11cbd9214035f77d4792749379b566d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 035/149] fix: a database that could not be opened was not
 reported as an error

---
 libmsi/libmsi-database.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 59f994e..05b6a5a 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2640,8 +2640,9 @@ init (LibmsiDatabase *self, GError **error)
     if (self->flags & LIBMSI_DB_FLAGS_CREATE) {
         self->strings = msi_init_string_table (&self->bytes_per_strref);
     } else {
-        if (_libmsi_database_open(self))
-            return FALSE;
+        ret = _libmsi_database_open(self);
+        if (ret)
+            goto end;
     }
 
     self->media_transform_offset = MSI_INITIAL_MEDIA_TRANSFORM_OFFSET;
@@ -2652,6 +2653,11 @@ init (LibmsiDatabase *self, GError **error)
 
     ret = _libmsi_database_start_transaction (self);
 
+end:
+    if (ret)
+        g_set_error (error, LIBMSI_RESULT_ERROR, ret,
+                     "failed to open database %s", self->path);
+
     return !ret;
 }
 
-- 
2.43.0


From e1be55317fd18e667ea794a0b8130cac2bb2a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:55 +0000
Subject: [PATCH 036/149] fix: summary information getters returned
 uninitialised memory on failure

---
 libmsi/libmsi-summary-info.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 2e7f513..c14f99c 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -743,7 +743,7 @@ libmsi_summary_info_get_int (LibmsiSummaryInfo *self, LibmsiProperty prop,
                              GError **error)
 {
     LibmsiPropertyType type;
-    gint val;
+    gint val = -1;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), -1);
     g_return_val_if_fail (!error || *error == NULL, -1);
@@ -768,7 +768,7 @@ libmsi_summary_info_get_filetime (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                   GError **error)
 {
     LibmsiPropertyType type;
-    guint64 val;
+    guint64 val = 0;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), 0);
     g_return_val_if_fail (!error || *error == NULL, 0);
@@ -793,7 +793,7 @@ libmsi_summary_info_get_string (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                 GError **error)
 {
     LibmsiPropertyType type;
-    const gchar *str;
+    const gchar *str = NULL;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), FALSE);
     g_return_val_if_fail (!error || *error == NULL, FALSE);
-- 
2.43.0


From 575541e1c08f9b842a155e8e60816d69f2702d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:55 +0000
Subject: [PATCH 037/149] fix: importing malformed summary information read
 uninitialised memory

---
 libmsi/libmsi-summary-info.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index c14f99c..94b6a32 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -1024,11 +1024,11 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
 
     for (i = 0; i < num_records; i++)
     {
-        for (j = 0; j < num_columns; j += 2)
+        for (j = 0; j + 1 < num_columns; j += 2)
         {
             unsigned pid;
             int int_value = 0;
-            guint64 ft_value;
+            guint64 ft_value = 0;
             char *str_value = NULL;
 
             r = parse_prop( records[i][j], records[i][j + 1], &pid, &int_value, &ft_value, &str_value );
-- 
2.43.0


From 91f23f5756f7a9f5ddccb068bfde69230892be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:55 +0000
Subject: [PATCH 038/149] fix: malformed summary information was read outside
 of its buffer

---
 libmsi/libmsi-summary-info.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 94b6a32..cd5b5b8 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -341,7 +341,7 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
 
         property = &prop[ propid ];
 
-        if( dwOffset + 4 > sz )
+        if( dwOffset > sz || sz - dwOffset < 4 )
         {
             g_critical("not enough data for type %d %d \n", dwOffset, sz);
             break;
@@ -372,7 +372,7 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
             break;
         case OLEVT_LPSTR:
             len = read_dword(data, &dwOffset);
-            if(len == 0 || dwOffset + len > sz )
+            if(len == 0 || len > sz - dwOffset )
             {
                 g_critical("not enough data for type %d %d %d \n", dwOffset, len, sz);
                 valid = FALSE;
@@ -391,8 +391,10 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
         }
 
         /* check the type is the same as we expect */
-        if( type == OLEVT_LPSTR && proptype == OLEVT_LPSTR)
+        if( type == OLEVT_LPSTR && proptype == OLEVT_LPSTR) {
+           free_prop( property );
            property->strval = str;
+        }
         else if (type == proptype)
            ;
         else if( proptype == OLEVT_LPSTR) {
@@ -431,7 +433,7 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
     TRACE("%p %p\n", si, stm);
 
     sz = gsf_input_size(stm);
-    if (!sz)
+    if (sz < 48)
         return ret;
     data = g_try_malloc(gsf_input_size(stm));
     if (!data)
@@ -459,6 +461,9 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
     ofs += 16;
     ofs = dwOffset = read_dword(data, &ofs);
 
+    if (dwOffset > sz || sz - dwOffset < 8)
+        goto done;
+
     /* read the section itself */
     cbSection = read_dword( data, &ofs );
     cProperties = read_dword( data, &ofs );
@@ -469,6 +474,14 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
         goto done;
     }
 
+    if (cbSection > sz - dwOffset)
+        cbSection = sz - dwOffset;
+    if (cbSection < 8 + cProperties * 8)
+    {
+        g_critical("not enough data for %d properties\n", cProperties);
+        goto done;
+    }
+
     /* read all the data in one go */
     read_properties_from_data( si->property,
                                &data[dwOffset],
-- 
2.43.0


From 6d37984af0c0159691799fefa184576661fd6b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 039/149] fix: msibuild left its temporary file behind after an
 invalid option

---
 tools/msibuild.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index 3003c4c..3ce48be 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -257,6 +257,7 @@ int main(int argc, char *argv[])
 {
     GError *error = NULL;
     gboolean success = FALSE;
+    gboolean usage = FALSE;
     int n;
 
 #if !GLIB_CHECK_VERSION(2,35,1)
@@ -284,7 +285,8 @@ int main(int argc, char *argv[])
         if (argc < 2 || argv[0][0] != '-' || argv[0][2])
         {
             show_usage();
-            return 1;
+            usage = TRUE;
+            goto end;
         }
 
         switch (argv[0][1])
@@ -327,7 +329,8 @@ int main(int argc, char *argv[])
             if (argc < 3)
             {
                 show_usage();
-                return 1;
+                usage = TRUE;
+                goto end;
             }
             if (!add_stream(argv[1], argv[2], &error))
                 goto end;
@@ -336,7 +339,8 @@ int main(int argc, char *argv[])
         default:
             fprintf(stdout, "unknown option\n");
             show_usage();
-            return 1;
+            usage = TRUE;
+            goto end;
         }
     }
 
@@ -352,5 +356,5 @@ end:
         exit(1);
     }
 
-    return 0;
+    return usage ? 1 : 0;
 }
-- 
2.43.0


From abb3acbce7245eaacab1a6b7a44a6973265ccb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 040/149] fix: merging freed the wrong objects

---
 libmsi/libmsi-database.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 05b6a5a..ba3b39b 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1619,7 +1619,8 @@ static unsigned merge_verify_primary_keys(LibmsiDatabase *db, LibmsiDatabase *me
 
 done:
     g_object_unref(dbrec);
-    g_object_unref(mergerec);
+    if (mergerec)
+        g_object_unref(mergerec);
 
     return r;
 }
@@ -1743,8 +1744,10 @@ done:
         g_critical("%s", err->message);
     g_clear_error(&err);
     msi_free(query);
-    g_object_unref(row);
-    g_object_unref(dbview);
+    if (row)
+        g_object_unref(row);
+    if (dbview)
+        g_object_unref(dbview);
     return r;
 }
 
@@ -1843,7 +1846,7 @@ static void merge_free_rows(MERGETABLE *table)
         MERGEROW *row = LIST_ENTRY(item, MERGEROW, entry);
 
         list_remove(&row->entry);
-        g_object_unref(row);
+        g_object_unref(row->data);
         msi_free(row);
     }
 }
@@ -1897,6 +1900,8 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
        return LIBMSI_RESULT_OUTOFMEMORY;
     }
 
+    list_init(&table->rows);
+
     r = msi_get_table_labels(db, name, &table->labels, &table->numlabels);
     if (r != LIBMSI_RESULT_SUCCESS)
         goto err;
@@ -1913,8 +1918,6 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     if (r != LIBMSI_RESULT_SUCCESS)
         goto err;
 
-    list_init(&table->rows);
-
     table->name = strdup(name);
     table->numconflicts = 0;
 
@@ -1923,7 +1926,8 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     return LIBMSI_RESULT_SUCCESS;
 
 err:
-    g_object_unref(mergeview);
+    if (mergeview)
+        g_object_unref(mergeview);
     free_merge_table(table);
     *ptable = NULL;
     return r;
@@ -1977,8 +1981,10 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     list_add_tail(data->tabledata, &table->entry);
 
 done:
-    g_object_unref(dbview);
-    g_object_unref(mergeview);
+    if (dbview)
+        g_object_unref(dbview);
+    if (mergeview)
+        g_object_unref(mergeview);
     return r;
 }
 
-- 
2.43.0


From c4b18e4c798554a54b4939b3f4dfd7e6a3407e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 041/149] fix: a merge with conflicts used a NULL table name if
 none was given

---
 libmsi/libmsi-database.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index ba3b39b..7475763 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2113,6 +2113,9 @@ libmsi_database_merge (LibmsiDatabase *db,
         {
             conflicts = true;
 
+            if (!tablename)
+                continue;
+
             r = update_merge_errors(db, tablename, table->name,
                                     table->numconflicts);
             if (r != LIBMSI_RESULT_SUCCESS)
-- 
2.43.0


From 55fb1c068ec632898fadaa778571d16d4a528505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 042/149] fix: rows with a quote or null in their key, or of a
 table named like a keyword, could not be merged

---
 libmsi/libmsi-database.c | 61 ++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 7475763..0d92f47 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1625,60 +1625,58 @@ done:
     return r;
 }
 
-static char *get_key_value(LibmsiQuery *view, const char *key, LibmsiRecord *rec)
+static unsigned get_key_column(LibmsiQuery *view, const char *key)
 {
     LibmsiRecord *colnames;
-    char *str;
-    unsigned r, i = 0;
-    int cmp;
+    unsigned r, i, count;
 
     r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &colnames);
     if (r != LIBMSI_RESULT_SUCCESS)
-        return NULL;
+        return 0;
 
-    do
+    count = libmsi_record_get_field_count(colnames);
+    for (i = 1; i <= count; i++)
     {
-        str = msi_dup_record_field(colnames, ++i);
-        cmp = strcmp( key, str );
-        msi_free(str);
-    } while (cmp);
+        if (!g_strcmp0(key, _libmsi_record_get_string_raw(colnames, i)))
+            break;
+    }
 
     g_object_unref(colnames);
-
-    if (_libmsi_record_get_string_raw(rec, i))  /* check record field is a string */
-        /* quote string record fields */
-        str = g_strdup_printf ("'%s'", _libmsi_record_get_string_raw (rec, i));
-    else
-        str = libmsi_record_get_string (rec, i);
-
-    return str;
+    return i <= count ? i : 0;
 }
 
+/* the key values are passed as parameters, they cannot all be written as literals */
 static char *create_diff_row_query(LibmsiDatabase *merge, LibmsiQuery *view,
-                                    char *table, LibmsiRecord *rec)
+                                    char *table, LibmsiRecord *rec, LibmsiRecord **params)
 {
     GString *query;
-    char *val;
     const char *key;
     LibmsiRecord *keys;
-    unsigned r, i, count;
+    unsigned r, i, col, count, n = 0;
 
     r = _libmsi_database_get_primary_keys(merge, table, &keys);
     if (r != LIBMSI_RESULT_SUCCESS)
         return NULL;
 
     query = g_string_sized_new(256);
-    g_string_printf (query, "SELECT * FROM %s WHERE ", table);
+    g_string_printf (query, "SELECT * FROM `%s` WHERE ", table);
     count = libmsi_record_get_field_count(keys);
+    *params = libmsi_record_new(count);
     for (i = 1; i <= count; i++)
     {
         key = _libmsi_record_get_string_raw(keys, i);
-        val = get_key_value(view, key, rec);
+        col = get_key_column(view, key);
 
-        if (i == count)
-            g_string_append_printf (query, "`%s` = %s", key, val);
+        if (libmsi_record_is_null(rec, col))
+            g_string_append_printf (query, "`%s` IS NULL", key);
         else
-            g_string_append_printf (query, "`%s` = %s AND ", key, val);
+        {
+            g_string_append_printf (query, "`%s` = ?", key);
+            _libmsi_record_copy_field(rec, col, *params, ++n);
+        }
+
+        if (i != count)
+            g_string_append (query, " AND ");
     }
 
     g_object_unref(keys);
@@ -1692,13 +1690,14 @@ static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
     MERGEROW *mergerow;
     LibmsiQuery *dbview = NULL;
     LibmsiRecord *row = NULL;
+    LibmsiRecord *params = NULL;
     char *query = NULL;
     unsigned r = LIBMSI_RESULT_SUCCESS;
     GError *err = NULL;
 
     if (table_view_exists(data->db, table->name))
     {
-        query = create_diff_row_query(data->merge, data->curview, table->name, rec);
+        query = create_diff_row_query(data->merge, data->curview, table->name, rec, &params);
         if (!query)
             return LIBMSI_RESULT_OUTOFMEMORY;
 
@@ -1706,7 +1705,7 @@ static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
         if (err)
             goto done;
 
-        r = _libmsi_query_execute(dbview, NULL);
+        r = _libmsi_query_execute(dbview, params);
         if (r != LIBMSI_RESULT_SUCCESS)
             goto done;
 
@@ -1746,6 +1745,8 @@ done:
     msi_free(query);
     if (row)
         g_object_unref(row);
+    if (params)
+        g_object_unref(params);
     if (dbview)
         g_object_unref(dbview);
     return r;
@@ -1891,7 +1892,7 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     MERGETABLE *table;
     LibmsiQuery *mergeview = NULL;
 
-    static const char query[] = "SELECT * FROM %s";
+    static const char query[] = "SELECT * FROM `%s`";
 
     table = msi_alloc_zero(sizeof(MERGETABLE));
     if (!table)
@@ -1942,7 +1943,7 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     const char *name;
     unsigned r;
 
-    static const char query[] = "SELECT * FROM %s";
+    static const char query[] = "SELECT * FROM `%s`";
 
     name = _libmsi_record_get_string_raw(rec, 1);
 
-- 
2.43.0


From bdad560d479ddeb51c003582682df2fdd4e303eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 043/149] fix: a merge took identical binary data for a
 conflict

---
 libmsi/libmsi-record.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index 6339338..b1b71c8 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -750,7 +750,32 @@ LibmsiRecord *_libmsi_record_clone(LibmsiRecord *rec)
     return clone;
 }
 
-G_GNUC_PURE
+static bool compare_streams(GsfInput *a, GsfInput *b)
+{
+    gsf_off_t left = gsf_input_size(a);
+    gsf_off_t pos_a = gsf_input_tell(a), pos_b = gsf_input_tell(b);
+    bool same = left == gsf_input_size(b);
+    uint8_t buf[4096];
+
+    if (same && (gsf_input_seek(a, 0, G_SEEK_SET) || gsf_input_seek(b, 0, G_SEEK_SET)))
+        same = false;
+
+    while (same && left > 0)
+    {
+        size_t n = MIN(left, (gsf_off_t) sizeof buf);
+        const uint8_t *data;
+
+        if (!gsf_input_read(a, n, buf) || !(data = gsf_input_read(b, n, NULL)) ||
+            memcmp(buf, data, n))
+            same = false;
+        left -= n;
+    }
+
+    gsf_input_seek(a, pos_a, G_SEEK_SET);
+    gsf_input_seek(b, pos_b, G_SEEK_SET);
+    return same;
+}
+
 bool _libmsi_record_compare_fields(const LibmsiRecord *a, const LibmsiRecord *b, unsigned field)
 {
     if (a->fields[field].type != b->fields[field].type)
@@ -772,14 +797,14 @@ bool _libmsi_record_compare_fields(const LibmsiRecord *a, const LibmsiRecord *b,
             break;
 
         case LIBMSI_FIELD_TYPE_STREAM:
+            return compare_streams(a->fields[field].u.stream, b->fields[field].u.stream);
+
         default:
             return false;
     }
     return true;
 }
 
-
-G_GNUC_PURE
 bool _libmsi_record_compare(const LibmsiRecord *a, const LibmsiRecord *b)
 {
     unsigned i;
-- 
2.43.0


From f46cddb089e26365ee32ada6d86599794b5d88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 044/149] fix: transforms could not be applied as their table
 names were cut wrongly

---
 libmsi/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 7db2a2b..de1aa5e 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2615,7 +2615,7 @@ unsigned msi_table_apply_transform( LibmsiDatabase *db, GsfInfile *stg )
 
         list_add_tail( &transforms, &transform->entry );
 
-        transform->name = strdup( name + 1 );
+        transform->name = strdup( name + 3 );
 
         if ( !strcmp( transform->name, szTables ) )
             tables = transform;
-- 
2.43.0


From 2466c781f775d7bce886bf2fb3e9c7e90cd27552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 045/149] fix: a transform adding a column lost the rows of a
 table that it does not change

---
 libmsi/table.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmsi/table.c b/libmsi/table.c
index de1aa5e..659612a 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2514,6 +2514,14 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                     /* fix nul column numbers */
                     libmsi_record_set_int( rec, 2, ++colcol );
                 }
+                else
+                {
+                    LibmsiView *view;
+
+                    /* read the rows in their old layout before the column is added */
+                    if (table_view_create( db, table, &view ) == LIBMSI_RESULT_SUCCESS)
+                        view->ops->delete( view );
+                }
             }
 
             if (TRACE_ON) dump_record( rec );
-- 
2.43.0


From b2f651ea2e9e2d52372a0192f52b60262a43f2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 046/149] fix: a database without strings lost its codepage

---
 libmsi/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 7ddb9f9..025c5e4 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -507,13 +507,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
     if( r != LIBMSI_RESULT_SUCCESS)
         goto end;
 
-    if ( (poolsize > 4) && (GUINT16_FROM_LE(pool[1]) & 0x8000) )
+    if ( (poolsize >= 4) && (GUINT16_FROM_LE(pool[1]) & 0x8000) )
         *bytes_per_strref = LONG_STR_BYTES;
     else
         *bytes_per_strref = sizeof(uint16_t);
 
     count = poolsize/4;
-    if( poolsize > 4 )
+    if( poolsize >= 4 )
         codepage = GUINT16_FROM_LE(pool[0]) | ( (GUINT16_FROM_LE(pool[1]) & ~0x8000) << 16 );
     else
         codepage = CP_ACP;
-- 
2.43.0


From 190185f9235f6691744282c12b567516a549869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:02 +0000
Subject: [PATCH 047/149] fix: wixl crashed on AdvertiseExecuteSequence

---
 tools/wixl/builder.vala | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index a241111..53c701f 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1026,7 +1026,9 @@ namespace Wixl {
 
         public override void visit_action (WixAction action) throws GLib.Error {
             var parent = action.parent as WixSequence;
-            var table = db.tables.lookup (parent.name) as MsiTableSequence;
+            // the table of AdvertiseExecuteSequence has another name
+            var table_name = parent.name == "AdvertiseExecuteSequence" ? "AdvtExecuteSequence" : parent.name;
+            var table = db.tables.lookup (table_name) as MsiTableSequence;
 
             if (action.name == "Custom")
                 action.name = action.Action;
-- 
2.43.0


From 7230a1b604950f339ac014f30c7bb6364682701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 048/149] fix: the order of actions in a sequence depended on
 memory addresses

---
 tools/wixl/msi.vala | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 4ff0560..d3c9ca2 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -348,19 +348,19 @@ namespace Wixl {
             public bool visited = false;
             public bool incoming_deps = false;
 
-            // Use it as a set, so value is not refcounted please vala
-            public HashTable<Action, Action*> depends_on = new HashTable<Action, Action*> (direct_hash, direct_equal);
+            // in the order of insertion, so that the result of the sort
+            // does not depend on addresses
+            public List<weak Action> depends_on;
 
             public void add_dep (Action a) {
-                hash_table_add (depends_on, a);
+                if (depends_on.find (a) == null)
+                    depends_on.append (a);
                 a.incoming_deps = true;
             }
 
             public int dep_max() {
                 int ret = -1;
-                var it = HashTableIter <Action, Action*> (depends_on);
-                Action dep;
-                while (it.next (null, out dep))
+                foreach (var dep in depends_on)
                     if (dep.sequence > ret)
                         ret = dep.sequence;
                 return ret;
@@ -375,10 +375,14 @@ namespace Wixl {
 
             action.visited = true;
 
-            Action dep;
-            var it = HashTableIter <Action, Action*> (action.depends_on);
-            while (it.next (null, out dep))
-                sort_topological_visit (dep, ref sorted);
+            // the dependencies that have a number come first, as the others
+            // are numbered after what is already sorted
+            foreach (var dep in action.depends_on)
+                if (dep.sequence != -999)
+                    sort_topological_visit (dep, ref sorted);
+            foreach (var dep in action.depends_on)
+                if (dep.sequence == -999)
+                    sort_topological_visit (dep, ref sorted);
 
             sorted.append (action);
         }
-- 
2.43.0


From 69135bb70fd77da01d3ee14c5355c2897ea402ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:03 +0000
Subject: [PATCH 049/149] fix: wixl dropped actions whose After and Before are
 contradictory

---
 tools/wixl/msi.vala | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index d3c9ca2..4c1d6e3 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -346,6 +346,7 @@ namespace Wixl {
             public WixAction? action;
 
             public bool visited = false;
+            public bool sorted = false;
             public bool incoming_deps = false;
 
             // in the order of insertion, so that the result of the sort
@@ -369,9 +370,11 @@ namespace Wixl {
 
         HashTable<string, Action> actions = new HashTable<string, Action> (str_hash, str_equal);
 
-        void sort_topological_visit (Action action, ref List<Action> sorted) {
-            if (action.visited)
+        void sort_topological_visit (Action action, ref List<Action> sorted) throws GLib.Error {
+            if (action.sorted)
                 return;
+            if (action.visited)
+                throw new Wixl.Error.FAILED ("%s: the position of action %s depends on itself".printf (name, action.name));
 
             action.visited = true;
 
@@ -384,6 +387,7 @@ namespace Wixl {
                 if (dep.sequence == -999)
                     sort_topological_visit (dep, ref sorted);
 
+            action.sorted = true;
             sorted.append (action);
         }
 
@@ -403,7 +407,7 @@ namespace Wixl {
             return list;
         }
 
-        List<Action> sort_topological () {
+        List<Action> sort_topological () throws GLib.Error {
             List<Action> sorted = null;
 
             foreach (var action in sorted_actions()) {
@@ -412,6 +416,10 @@ namespace Wixl {
                 sort_topological_visit (action, ref sorted);
             }
 
+            // an action that is not reached from the last ones is in a cycle
+            foreach (var action in sorted_actions())
+                sort_topological_visit (action, ref sorted);
+
             return sorted;
         }
 
-- 
2.43.0


From 1e8de7bcd7b691449bef82351cad5b4e648571e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:10 +0000
Subject: [PATCH 050/149] fix: wixl crashed on an advertised shortcut of a
 component without feature

---
 tools/wixl/builder.vala | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 53c701f..bdb9042 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -360,6 +360,8 @@ namespace Wixl {
                 if (sc.Target != null)
                     continue;
                 var component = sc.get_component ();
+                if (component.in_feature.length () == 0)
+                    throw new Wixl.Error.FAILED ("the component %s of shortcut %s is in no feature".printf (component.Id, sc.Id));
                 var feature = component.in_feature.first ().data;
                 MsiTableShortcut.set_target (sc.record, feature.Id);
             }
-- 
2.43.0


From 1caa6039429fb01bdbd5fea3cb18e693a001d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 051/149] fix: a shortcut in a component group had no directory

---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index bdb9042..0362436 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -961,7 +961,7 @@ namespace Wixl {
 
             var component = shortcut.get_component ();
             if (directory == null && shortcut.parent is WixComponent) {
-                var dir = resolve<WixDirectory> (component.parent);
+                var dir = get_directory (component);
                 directory = dir.Id;
             }
 
-- 
2.43.0


From d021fdb6fc5f3a9a721db25885b917802445844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:26 +0000
Subject: [PATCH 052/149] fix: the key of a registry value that gives none
 ended with a backslash

---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 0362436..1dff97a 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -826,7 +826,7 @@ namespace Wixl {
             if (reg.parent is WixRegistryKey) {
                 var regkey = reg.parent as WixRegistryKey;
                 comp = regkey.parent as WixComponent;
-                reg_key = regkey.Key + "\\" + reg.Key;
+                reg_key = reg.Key != null ? regkey.Key + "\\" + reg.Key : regkey.Key;
                 reg_root = regkey.Root;
             } else if (reg.parent is WixComponent) {
                 comp = reg.parent as WixComponent;
-- 
2.43.0


From dc72b2ad7b503145a79342e734b84bdc0b64f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:32 +0000
Subject: [PATCH 053/149] fix: wixl dropped the files of other disks than the
 first

---
 tools/wixl/builder.vala | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 1dff97a..42f36d5 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -912,7 +912,6 @@ namespace Wixl {
 
         public override void visit_file (WixFile file) throws GLib.Error {
             file.DiskId = file.DiskId ?? "1";
-            return_if_fail (file.DiskId == "1");
 
             var name = file.path_name ();
             var source = file.Source ?? name;
-- 
2.43.0


From 075e93345962ed610799e576b2596ef3fabb5d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 054/149] fix: wixl accepted files whose Media does not exist

---
 tools/wixl/builder.vala | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 42f36d5..520c28b 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -325,6 +325,18 @@ namespace Wixl {
         private void build_cabinet () throws GLib.Error {
             var sequence = 0;
 
+            foreach (var rec in db.table_file.records) {
+                var f = rec.get_data<WixFile> ("wixfile");
+                var component = f.parent as WixComponent;
+                var found = component.in_feature.length () == 0;
+
+                foreach (var m in medias)
+                    if (f.DiskId == m.Id)
+                        found = true;
+                if (!found)
+                    throw new Wixl.Error.FAILED ("no Media %s for file %s".printf (f.DiskId, f.Id));
+            }
+
             foreach (var m in medias) {
                 var folder = new GCab.Folder (GCab.Compression.MSZIP);
 
-- 
2.43.0


From ab8e477f658e6728255e7e2fecadadc02ac7a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:34 +0000
Subject: [PATCH 055/149] fix: the cabinet of a Media that does not embed it
 was written nowhere

---
 tools/wixl/builder.vala | 4 ++++
 tools/wixl/msi.vala     | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 520c28b..f34a53a 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -361,6 +361,10 @@ namespace Wixl {
                 var input = new MemoryInputStream.from_data (output.get_data ()[0:output.data_size], null);
                 if (parse_yesno (m.EmbedCab))
                     db.table_streams.add (m.Cabinet, input, output.data_size);
+                else {
+                    output.close ();
+                    db.cabinets.insert (m.Cabinet, output.steal_as_bytes ());
+                }
 
                 db.table_media.set_last_sequence (m.record, sequence);
             }
diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 4c1d6e3..2ea3d1b 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -1150,6 +1150,9 @@ namespace Wixl {
 
         public HashTable<string, MsiTable> tables;
 
+        // the cabinets that go beside the database, by name
+        public HashTable<string, Bytes> cabinets = new HashTable<string, Bytes> (str_hash, str_equal);
+
         int get_default_version () {
             if (arch == Arch.X86)
                 return 100;
@@ -1298,6 +1301,12 @@ namespace Wixl {
             while (it.next (out name, out table))
                 table.create (db);
 
+            var dir = Path.get_dirname (filename);
+            var cab_it = HashTableIter <string, Bytes> (cabinets);
+            Bytes cabinet;
+            while (cab_it.next (out name, out cabinet))
+                FileUtils.set_data (Path.build_filename (dir, name), cabinet.get_data ());
+
             db.commit ();
         }
     }
-- 
2.43.0


From 934016ace28ce6b8c79464cd8093cd4ff504d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:49 +0000
Subject: [PATCH 056/149] fix: wixl failed on CDATA sections and lost text that
 is split by them

---
 tools/wixl/builder.vala | 18 ++++--------------
 tools/wixl/wix.vala     | 22 ++++++++++++----------
 2 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index f34a53a..6046c19 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1001,10 +1001,7 @@ namespace Wixl {
         }
 
         public override void visit_condition (WixCondition condition) throws GLib.Error {
-            return_if_fail (condition.children.length () == 1);
-            var text = condition.children.first ().data as WixText;
-
-            db.table_launch_condition.add (text.Text.strip(), condition.Message);
+            db.table_launch_condition.add (condition.get_text ().strip (), condition.Message);
         }
 
         [Flags]
@@ -1084,9 +1081,7 @@ namespace Wixl {
             if (action.Condition != null) {
                 node.condition = action.Condition;
             } else if (action.children.length () > 0) {
-                return_if_fail (action.children.length () == 1);
-                var text = action.children.first ().data as WixText;
-                node.condition = text.Text.strip();
+                node.condition = action.get_text ().strip ();
             }
         }
 
@@ -1491,9 +1486,7 @@ namespace Wixl {
                 control.Text = data;
             } else if (text.children.length () > 0) {
                 // use the inner text from this element
-                return_if_fail (text.children.length () == 1);
-                var node = text.children.first ().data as WixText;
-                control.Text = node.Text.strip();
+                control.Text = text.get_text ().strip ();
             }
         }
 
@@ -1876,10 +1869,7 @@ namespace Wixl {
         }
 
         public override void visit_progress_text (WixProgressText progress_text) throws GLib.Error {
-            return_if_fail (progress_text.children.length () == 1);
-            var text = progress_text.children.first ().data as WixText;
-
-            db.table_action_text.add (progress_text.Action, text.Text.strip(), progress_text.Template);
+            db.table_action_text.add (progress_text.Action, progress_text.get_text ().strip (), progress_text.Template);
         }
     }
 
diff --git a/tools/wixl/wix.vala b/tools/wixl/wix.vala
index 2bfb362..9abf78f 100644
--- a/tools/wixl/wix.vala
+++ b/tools/wixl/wix.vala
@@ -141,6 +141,17 @@ namespace Wixl {
             }
         }
 
+        // the text of the element, which comments and sections may split
+        public string get_text () {
+            var text = "";
+
+            foreach (var c in children)
+                if (c is WixText)
+                    text += ((WixText)c).Text;
+
+            return text;
+        }
+
         public void add_child (WixNode e) {
             e.parent = this;
             children.append (e);
@@ -215,6 +226,7 @@ namespace Wixl {
                 case Xml.ElementType.COMMENT_NODE:
                     continue;
                 case Xml.ElementType.TEXT_NODE:
+                case Xml.ElementType.CDATA_SECTION_NODE:
                     add_child (new WixText (child->content));
                     continue;
                 case Xml.ElementType.ELEMENT_NODE:
@@ -589,16 +601,6 @@ namespace Wixl {
             name = "ServiceArgument";
         }
 
-        public string get_text() {
-            foreach (var c in children) {
-                if (c is WixText) {
-                    return ((WixText)c).Text;
-                }
-            }
-
-            return "";
-        }
-
         public override void accept (WixNodeVisitor visitor) throws GLib.Error {
             visitor.visit_service_argument (this);
         }
-- 
2.43.0


From 8d21a6bc87609fea778e9643c55fff137ee22de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:38 +0000
Subject: [PATCH 057/149] fix: wixl aborted on unsupported elements and
 attribute values

---
 tools/wixl/builder.vala | 8 ++++----
 tools/wixl/wix.vala     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 6046c19..558f628 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -464,7 +464,7 @@ namespace Wixl {
                 } else if (package.InstallScope == "perMachine") {
                     db.table_property.add ("ALLUSERS", "1");
                 } else {
-                    error ("invalid InstallScope value: %s", package.InstallScope);
+                    throw new Wixl.Error.FAILED ("invalid InstallScope value: %s", package.InstallScope);
                 }
             }
             db.info.set_property (Libmsi.Property.SOURCE, source);
@@ -773,7 +773,7 @@ namespace Wixl {
             } else if (comp.parent is WixDirectory || comp.parent is WixDirectoryRef) {
                 return resolve<WixDirectory> (comp.parent);
             } else
-                error ("unhandled parent type %s", comp.parent.name);
+                throw new Wixl.Error.FAILED ("unhandled parent type %s", comp.parent.name);
         }
 
         public override void visit_remove_folder (WixRemoveFolder rm) throws GLib.Error {
@@ -1378,7 +1378,7 @@ namespace Wixl {
                 target = action.ExeCommand;
             } else if (action.ExeCommand != null && action.FileKey != null) {
                 if (find_element<WixFile>(action.FileKey) == null)
-                    error ("file reference '%s' not defined", action.FileKey);
+                    throw new Wixl.Error.FAILED ("file reference '%s' not defined", action.FileKey);
 
                 type = CustomActionType.EXE_FILE;
                 source = action.FileKey;
@@ -1668,7 +1668,7 @@ namespace Wixl {
             string help;
 
             if (!(control.parent is WixDialog)) {
-                error ("unhandled parent type %s", control.parent.name);
+                throw new Wixl.Error.FAILED ("unhandled parent type %s", control.parent.name);
             }
 
             // static controls don't need to be enabled
diff --git a/tools/wixl/wix.vala b/tools/wixl/wix.vala
index 9abf78f..430e301 100644
--- a/tools/wixl/wix.vala
+++ b/tools/wixl/wix.vala
@@ -241,7 +241,7 @@ namespace Wixl {
                 default:
                     break;
                 }
-                error ("unhandled child %s node %s", name, child->name);
+                throw new Error.FAILED ("unhandled child %s node %s", name, child->name);
             }
         }
 
-- 
2.43.0


From 91ddf5dc0aea2bd2d2df8bb2ff9b2bbd9c280b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:46 +0000
Subject: [PATCH 058/149] fix: wixl dropped the components of a group without
 directory

---
 tools/wixl/builder.vala | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 558f628..23ba7fd 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -769,7 +769,10 @@ namespace Wixl {
         WixDirectory get_directory (WixComponent comp) throws GLib.Error {
             if (comp.parent is WixComponentGroup) {
                 var group = comp.parent as WixComponentGroup;
-                return find_element<WixDirectory> (group.Directory);
+                var dir = group.Directory != null ? find_element<WixDirectory> (group.Directory) : null;
+                if (dir == null)
+                    throw new Wixl.Error.FAILED ("couldn't find the directory of component group %s", group.Id);
+                return dir;
             } else if (comp.parent is WixDirectory || comp.parent is WixDirectoryRef) {
                 return resolve<WixDirectory> (comp.parent);
             } else
-- 
2.43.0


From a4b62db3c59f94b2e7be6f22edc530fecef946d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:25 +0000
Subject: [PATCH 059/149] fix: wixl succeeded on input that lacks mandatory
 attributes

---
 tools/wixl/builder.vala | 16 ++++++++++++----
 tools/wixl/wixl.vala    |  9 +++++++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 23ba7fd..ed8bdb8 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1089,7 +1089,10 @@ namespace Wixl {
         }
 
         public override void visit_progid (WixProgId progid) throws GLib.Error {
-            return_if_fail (!parse_yesno (progid.Advertise));
+            if (parse_yesno (progid.Advertise)) {
+                warning ("unimplemented advertised ProgId %s", progid.Id);
+                return;
+            }
 
             var comp = progid.parent as WixComponent;
             var regid = generate_id ("reg", 2,
@@ -1103,7 +1106,8 @@ namespace Wixl {
             var progid = ext.parent as WixProgId;
             var comp = progid.parent as WixComponent;
 
-            return_if_fail (!parse_yesno (progid.Advertise));
+            if (parse_yesno (progid.Advertise))
+                return;
 
             var regid = generate_id ("reg", 3,
                                      comp.Id,
@@ -1120,7 +1124,10 @@ namespace Wixl {
         }
 
         public override void visit_verb (WixVerb verb) throws GLib.Error {
-            return_if_fail (verb.Id == "open");
+            if (verb.Id != "open") {
+                warning ("unimplemented Verb %s", verb.Id);
+                return;
+            }
 
             var ext = verb.parent as WixExtension;
             var progid = ext.parent as WixProgId;
@@ -1147,7 +1154,8 @@ namespace Wixl {
             var progid = ext.parent as WixProgId;
             var comp = progid.parent as WixComponent;
 
-            return_if_fail (!parse_yesno (progid.Advertise));
+            if (parse_yesno (progid.Advertise))
+                return;
 
             var key = "MIME\\Database\\Content Type\\" + mime.ContentType;
             var regid = generate_id ("reg", 3,
diff --git a/tools/wixl/wixl.vala b/tools/wixl/wixl.vala
index 993860d..36a7e91 100644
--- a/tools/wixl/wixl.vala
+++ b/tools/wixl/wixl.vala
@@ -102,6 +102,13 @@ namespace Wixl {
             }
         }
 
+        // the result lacks what a failed precondition is about
+        var failed = false;
+        Log.set_handler (null, LogLevelFlags.LEVEL_CRITICAL, (domain, level, message) => {
+            Log.default_handler (domain, level, message);
+            failed = true;
+        });
+
         try {
             var builder = new WixBuilder (includedirs, arch, extensions, extdir);
 
@@ -126,6 +133,8 @@ namespace Wixl {
             if (verbose)
                 print (_("Building %s...\n"), output);
             var msi = builder.build ();
+            if (failed)
+                throw new Wixl.Error.FAILED ("the input is incomplete");
             if (verbose)
                 print (_("Writing %s...\n"), output);
             msi.build (output);
-- 
2.43.0


From 54832faa8931de72ccb33a71ad943ab28ede553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 060/149] fix: wixl crashed on a Media without Cabinet

---
 tools/wixl/builder.vala | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index ed8bdb8..7eac1d6 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -487,6 +487,9 @@ namespace Wixl {
         public override void visit_media (WixMedia media) throws GLib.Error {
             var cabinet = media.Cabinet;
 
+            if (cabinet == null)
+                throw new Wixl.Error.FAILED ("unimplemented Media %s without Cabinet", media.Id);
+
             if (parse_yesno (media.EmbedCab))
                 cabinet = "#" + cabinet;
 
-- 
2.43.0


From 0f8b54e9c663ea4226808ef1ec15f004dd48a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:26 +0000
Subject: [PATCH 061/149] fix: the preprocessor dropped dollar signs

---
 tools/wixl/preprocessor.vala | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 1769d3c..b4bc816 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -82,7 +82,8 @@ namespace Wixl {
                         throw new Wixl.Error.FAILED ("Undefined variable %s", substring);
                     result += val;
                     end += closing + 1;
-                }
+                } else
+                    result += "$";
             }
 
             return result + str[end:str.length];
-- 
2.43.0


From b527e1c619139db549ef8a505c04b0dd7c1d81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:30 +0000
Subject: [PATCH 062/149] fix: the preprocessor compared variables as if they
 were zero

---
 tools/wixl/preprocessor.vala | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index b4bc816..5034dd8 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -187,6 +187,10 @@ namespace Wixl {
             }
 
             int to_int (Value val) {
+                // there is no transform for this one
+                if (val.holds (typeof (string)))
+                    return int.parse (val.get_string () ?? "");
+
                 Value result = 0;
                 val.transform (ref result);
                 return result.get_int ();
-- 
2.43.0


From 9bd1154392fb96e4d361e10e6fda935f1b1334bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:35 +0000
Subject: [PATCH 063/149] fix: undef had no effect on a name with the var
 prefix

---
 tools/wixl/preprocessor.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 5034dd8..04b8ea4 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -444,7 +444,7 @@ namespace Wixl {
                         break;
                     case "undef":
                         var value = reader.const_value ().strip ();
-                        undefine_variable (value);
+                        undefine_variable (remove_prefix ("var.", value));
                         break;
                     case "require":
                         var value = eval (reader.const_value (), file).strip ();
-- 
2.43.0


From 357cd15e1f6fd34b0bc8e5383508f719fb5c53e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:40 +0000
Subject: [PATCH 064/149] fix: the preprocessor ignored elseif and kept both
 branches

---
 tools/wixl/preprocessor.vala | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 04b8ea4..fbe64a0 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -402,6 +402,15 @@ namespace Wixl {
                         var value = reader.const_value ().strip ();
                         context = new IfContext (context.enabled && context.is_true, eval_variable (value, file) == null, IfContext.State.IF);
                         break;
+                    case "elseif":
+                        if (ifstack.is_empty ())
+                            throw new Wixl.Error.FAILED ("Unmatched elseif");
+                        if (!context.state.in_if ())
+                            throw new Wixl.Error.FAILED ("Unmatched elseif");
+                        context.state = IfContext.State.ELSEIF;
+                        var value = (reader.const_value () ?? "").strip ();
+                        context.is_true = context.never_true && eval_condition (value, file);
+                        break;
                     case "else":
                         if (ifstack.is_empty ())
                             throw new Wixl.Error.FAILED ("Unmatched else");
-- 
2.43.0


From 6c3e9cd6f832c2b37a54a647a6677ab4727c1b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 065/149] fix: preprocessor instructions without a value passed
 silently

---
 tools/wixl/preprocessor.vala | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index fbe64a0..38909ff 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -394,12 +394,12 @@ namespace Wixl {
                     switch (reader.const_local_name ()) {
                     case "ifdef":
                         ifstack.push_head (context);
-                        var value = reader.const_value ().strip ();
+                        var value = (reader.const_value () ?? "").strip ();
                         context = new IfContext (context.enabled && context.is_true, eval_variable (value, file) != null, IfContext.State.IF);
                         break;
                     case "ifndef":
                         ifstack.push_head (context);
-                        var value = reader.const_value ().strip ();
+                        var value = (reader.const_value () ?? "").strip ();
                         context = new IfContext (context.enabled && context.is_true, eval_variable (value, file) == null, IfContext.State.IF);
                         break;
                     case "elseif":
@@ -426,7 +426,7 @@ namespace Wixl {
                         break;
                     case "if":
                         ifstack.push_head (context);
-                        var value = reader.const_value ().strip ();
+                        var value = (reader.const_value () ?? "").strip ();
                         context = new IfContext (context.enabled && context.is_true, eval_condition (value, file), IfContext.State.IF);
                         break;
                     default:
@@ -444,7 +444,7 @@ namespace Wixl {
                     case "define":
                         MatchInfo info;
                         var r = /^\s*(?P<name>.+?)\s*=\s*(?P<value>.+?)\s*$/;
-                        if (r.match (reader.const_value (), 0, out info)) {
+                        if (r.match (reader.const_value () ?? "", 0, out info)) {
                             var name = remove_prefix ("var.", info.fetch_named ("name"));
                             var value = unquote (info.fetch_named ("value"));
                             define_variable (name, value);
@@ -452,22 +452,22 @@ namespace Wixl {
                             throw new Wixl.Error.FAILED ("invalid define");
                         break;
                     case "undef":
-                        var value = reader.const_value ().strip ();
+                        var value = (reader.const_value () ?? "").strip ();
                         undefine_variable (remove_prefix ("var.", value));
                         break;
                     case "require":
-                        var value = eval (reader.const_value (), file).strip ();
+                        var value = eval (reader.const_value () ?? "", file).strip ();
                         include (value, loc, writer, true);
                         break;
                     case "include":
-                        var value = eval (reader.const_value (), file).strip ();
+                        var value = eval (reader.const_value () ?? "", file).strip ();
                         include (value, loc, writer);
                         break;
                     case "warning":
-                        print ("warning", loc, eval (reader.const_value (), file));
+                        print ("warning", loc, eval (reader.const_value () ?? "", file));
                         break;
                     case "error":
-                        print ("error", loc, eval (reader.const_value (), file));
+                        print ("error", loc, eval (reader.const_value () ?? "", file));
                         Posix.exit (1);
                         break;
                     default:
-- 
2.43.0


From 71aac4ad544f2ad76cbec1b1a9ef2b6d1bc9cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:49 +0000
Subject: [PATCH 066/149] fix: wixl crashed on a file that includes itself

---
 tools/wixl/preprocessor.vala | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 38909ff..b3b3174 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -527,6 +527,9 @@ namespace Wixl {
             return true;
         }
 
+        const int MAX_INCLUDE_DEPTH = 256;
+        int include_depth = 0;
+
         // Use it as a set
         HashTable<string,string*> requires = new HashTable<string, string*> (str_hash, str_equal);
         void include (string name, Location loc, Xml.TextWriter writer, bool is_req = false) throws GLib.Error {
@@ -544,11 +547,16 @@ namespace Wixl {
                 dirs += dir.get_child (name).get_path ();
             dirs += loc.file.get_parent ().get_child (name).get_path ();
 
+            if (include_depth >= MAX_INCLUDE_DEPTH)
+                throw new Wixl.Error.FAILED ("%s is included too deeply", name);
+
+            include_depth++;
             foreach (var inc in dirs) {
                 success = include_try (inc, writer);
                 if (success)
                     break;
             }
+            include_depth--;
             if (!success) {
                 print ("error", loc, "Failed to include %s".printf (name));
                 Posix.exit (1);
-- 
2.43.0


From 2f31298fbd5f758e87f02749524af8c5c9540a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:15 +0000
Subject: [PATCH 067/149] fix: wixl dropped registry searches for the default
 value

---
 tools/wixl/msi.vala | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 2ea3d1b..aec020b 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -925,12 +925,12 @@ namespace Wixl {
             sql_insert = "INSERT INTO `RegLocator` (`Signature_`, `Root`, `Key`, `Name`, `Type`) VALUES (?, ?, ?, ?, ?)";
         }
 
-        public void add (string Signature, int Root, string Key, string Name, int Type) throws GLib.Error {
+        public void add (string Signature, int Root, string Key, string? Name, int Type) throws GLib.Error {
             var rec = new Libmsi.Record (5);
             if (!rec.set_string (1, Signature) ||
                 !rec.set_int (2, Root) ||
                 !rec.set_string (3, Key) ||
-                !rec.set_string (4, Name) ||
+                (Name != null && !rec.set_string (4, Name)) ||
                 !rec.set_int (5, Type))
                 throw new Wixl.Error.FAILED ("failed to add record");
 
-- 
2.43.0


From caf1179f60316084d773befbdf5812c99e6a20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:51 +0000
Subject: [PATCH 068/149] fix: wixl dropped ini file entries without directory

---
 tools/wixl/msi.vala | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index aec020b..bea5cef 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -976,14 +976,14 @@ namespace Wixl {
             sql_insert = "INSERT INTO `IniFile` (`IniFile`, `FileName`, `DirProperty`, `Section`, `Key`, Value`, `Action`, `Component_`) VALUES (?, ?, ?, ?, ?, ?, ?, ?)";
         }
 
-        public void add (string IniFile, string FileName, string DirProperty, string Section, string Key, string Value, int Action, string Component) throws GLib.Error {
+        public void add (string IniFile, string FileName, string? DirProperty, string Section, string Key, string Value, int Action, string Component) throws GLib.Error {
             var rec = new Libmsi.Record (8);
             if (!rec.set_string (1, IniFile) ||
                 !rec.set_string (2, FileName) ||
-                !rec.set_string (3, DirProperty) ||
+                (DirProperty != null && !rec.set_string (3, DirProperty)) ||
                 !rec.set_string (4, Section) ||
                 !rec.set_string (5, Key) ||
-                !rec.set_string (6, Value) ||
+                (Value != null && !rec.set_string (6, Value)) ||
                 !rec.set_int (7, Action) ||
                 !rec.set_string (8, Component))
                 throw new Wixl.Error.FAILED ("failed to add record");
@@ -999,14 +999,14 @@ namespace Wixl {
             sql_insert = "INSERT INTO `RemoveIniFile` (`RemoveIniFile`, `FileName`, `DirProperty`, `Section`, `Key`, Value`, `Action`, `Component_`) VALUES (?, ?, ?, ?, ?, ?, ?, ?)";
         }
 
-        public void add (string IniFile, string FileName, string DirProperty, string Section, string Key, string? Value, int Action, string Component) throws GLib.Error {
+        public void add (string IniFile, string FileName, string? DirProperty, string Section, string Key, string? Value, int Action, string Component) throws GLib.Error {
             var rec = new Libmsi.Record (8);
             if (!rec.set_string (1, IniFile) ||
                 !rec.set_string (2, FileName) ||
-                !rec.set_string (3, DirProperty) ||
+                (DirProperty != null && !rec.set_string (3, DirProperty)) ||
                 !rec.set_string (4, Section) ||
                 !rec.set_string (5, Key) ||
-                !rec.set_string (6, Value) ||
+                (Value != null && !rec.set_string (6, Value)) ||
                 !rec.set_int (7, Action) ||
                 !rec.set_string (8, Component))
                 throw new Wixl.Error.FAILED ("failed to add record");
-- 
2.43.0


From c25606119b2824209e638c87787ce2f000c7c2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:59 +0000
Subject: [PATCH 069/149] fix: wixl rejected InstallDefault="followParent"

---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 7eac1d6..07cfd03 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -666,7 +666,7 @@ namespace Wixl {
 
             int attributes = 0;
             if (feature.InstallDefault != null) {
-                switch(InstallDefaultValue.from_string(feature.InstallDefault)) {
+                switch(InstallDefaultValue.from_string(feature.InstallDefault.down ())) {
                 case InstallDefaultValue.FollowParent:
                     attributes |= FeatureAttributes.FOLLOWPARENT;
                     break;
-- 
2.43.0


From 94fdd314c1fddc5401a37313397c54db437ed3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:57 +0000
Subject: [PATCH 070/149] fix: wixl dropped shortcuts in a file that name no
 directory

---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 07cfd03..5ec5437 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -981,7 +981,7 @@ namespace Wixl {
                 message ("unimplemented");
 
             var component = shortcut.get_component ();
-            if (directory == null && shortcut.parent is WixComponent) {
+            if (directory == null) {
                 var dir = get_directory (component);
                 directory = dir.Id;
             }
-- 
2.43.0


From b83a5787edca497feecdb735996add44aacd8f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 071/149] fix: msiextract crashed on a missing directory,
 component or cabinet

---
 tools/msiextract.vala | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index f19e07c..69ad735 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -51,6 +51,8 @@ public void extract_cab (Libmsi.Database db, string cab,
         var query = new Libmsi.Query (db, "SELECT `Data` FROM `_Streams` WHERE `Name` = '%s'".printf (name));
         query.execute ();
         var rec = query.fetch ();
+        if (rec == null)
+            throw new IOError.NOT_FOUND ("%s: no such cabinet", cab);
         cabinet.load (rec.get_stream (1));
     }
     else {
@@ -106,6 +108,8 @@ public void extract (string filename) throws GLib.Error {
     while ((rec = query.fetch ()) != null) {
         var dir_id = rec.get_string (3);
         var dir_rec = directories.lookup (dir_id);
+        if (dir_rec == null)
+            throw new IOError.INVALID_DATA ("%s: component %s is in a missing directory %s", filename, rec.get_string (1), dir_id);
         var dir = get_directory_name (dir_rec);
 
         do {
@@ -130,6 +134,8 @@ public void extract (string filename) throws GLib.Error {
     query.execute ();
     while ((rec = query.fetch ()) != null) {
         var dir = components_dir.lookup (rec.get_string (2));
+        if (dir == null)
+            throw new IOError.INVALID_DATA ("%s: file %s is in a missing component %s", filename, rec.get_string (1), rec.get_string (2));
         var file = Path.build_filename (dir, get_long_name (rec.get_string (3)));
         if (list_only)
             GLib.stdout.printf ("%s\n", file);
-- 
2.43.0


From 5d5127bf7ae791cc2c4a9905700d31b34f17171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 072/149] fix: msiextract -l listed only the first of its files

---
 tools/msiextract.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index 69ad735..dded534 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -143,7 +143,7 @@ public void extract (string filename) throws GLib.Error {
     }
 
     if (list_only)
-        exit (0);
+        return;
 
     query = new Libmsi.Query (db, "SELECT * FROM `Media`");
     query.execute ();
-- 
2.43.0


From f3026b3c48c423307a658259bd77aec2f6918955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 073/149] fix: msiextract looped forever on a root directory
 that is its own parent

---
 tools/msiextract.vala | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index dded534..e80a955 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -114,6 +114,9 @@ public void extract (string filename) throws GLib.Error {
 
         do {
             var parent = dir_rec.get_string (2);
+            // a root may be its own parent
+            if (parent == dir_rec.get_string (1))
+                break;
             dir_rec = directories.lookup (parent);
             if (dir_rec == null)
                 break;
-- 
2.43.0


From 7ff7caf11eb8df2281957f07b231d7ced556579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 074/149] fix: msiextract took the source name of directories
 as part of their name

---
 tools/msiextract.vala | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index e80a955..7d8fc13 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -15,11 +15,14 @@ private const OptionEntry[] options = {
 };
 
 public string get_long_name (string str) {
-    var names = str.split ("|", 2);
+    // a directory may have another name in the source, after a colon
+    var colon = str.index_of_char (':');
+    var target = colon < 0 ? str : str.substring (0, colon);
+    var names = target.split ("|", 2);
     if (names.length == 2)
         return names[1];
 
-    return str;
+    return target;
 }
 
 // Look for a case insensitive match of cab in the directory dir.
-- 
2.43.0


From 4f0e7777dc958bf210d85148d10f1e117770c658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 075/149] fix: msiextract looped forever on directories that
 are below each other

---
 tools/msiextract.vala | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index 7d8fc13..9856a67 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -114,6 +114,7 @@ public void extract (string filename) throws GLib.Error {
         if (dir_rec == null)
             throw new IOError.INVALID_DATA ("%s: component %s is in a missing directory %s", filename, rec.get_string (1), dir_id);
         var dir = get_directory_name (dir_rec);
+        var depth = 0;
 
         do {
             var parent = dir_rec.get_string (2);
@@ -123,6 +124,8 @@ public void extract (string filename) throws GLib.Error {
             dir_rec = directories.lookup (parent);
             if (dir_rec == null)
                 break;
+            if (++depth > directories.size ())
+                throw new IOError.INVALID_DATA ("%s: directory %s is below itself", filename, parent);
             parent = get_directory_name (dir_rec);
             if (parent == null)
                 break;
-- 
2.43.0


From 9f10072c8dce2ce5878a64f45246633e6a255e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 076/149] fix: the preprocessor left escaped dollar signs
 doubled

---
 tools/wixl/preprocessor.vala | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index b3b3174..36cfcb6 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -68,9 +68,12 @@ namespace Wixl {
                     result += str[end:pos];
                 end = pos + 1;
                 var remainder = str[end:str.length];
-                if (remainder.has_prefix ("$"))
+                if (remainder.has_prefix ("$")) {
                     result += "$";
-                else if (remainder.has_prefix ("(")) {
+                    // the second one is the start of a variable or goes away
+                    if (!remainder.has_prefix ("$("))
+                        end++;
+                } else if (remainder.has_prefix ("(")) {
                     var closing = find_closing_paren (remainder);
                     if (closing == -1)
                         throw new Wixl.Error.FAILED ("no matching closing parenthesis");
-- 
2.43.0


From 8023a9d86b4541a609bcd927d4d156e2ebd78ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 077/149] fix: wixl-heat wrote file names with special
 characters as malformed XML

---
 tools/wixl/wixl-heat.vala | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 4c828f7..03397ce 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -27,7 +27,7 @@ bool filtered (string file) {
 }
 
 string escape_filename(string filename) {
-    return filename.replace("$", "$$");
+    return Markup.escape_text (filename.replace("$", "$$"));
 }
 
 public int main (string[] args) {
@@ -94,7 +94,7 @@ public int main (string[] args) {
                 }
             }
             for (; i < path.length; i++) {
-                stdout.printf (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), path[i]));
+                stdout.printf (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), escape_filename (path[i])));
                 indent += "  ";
             }
             last_path = path;
@@ -106,8 +106,8 @@ public int main (string[] args) {
                     stdout.printf (indent + "<Component Win64=\"$(var.Win64)\" Id=\"%s\" Guid=\"*\">\n".printf (id));
                 else
                     stdout.printf (indent + "<Component Id=\"%s\" Guid=\"*\">\n".printf (id));
-                file = sourcedir + Path.DIR_SEPARATOR_S + escape_filename(file);
-                stdout.printf (indent + "  <File Id=\"%s\" KeyPath=\"yes\" Source=\"%s\"/>\n".printf (generate_id ("fil", 1, file), file));
+                var source = sourcedir + Path.DIR_SEPARATOR_S;
+                stdout.printf (indent + "  <File Id=\"%s\" KeyPath=\"yes\" Source=\"%s\"/>\n".printf (generate_id ("fil", 1, source + file.replace ("$", "$$")), source + escape_filename (file)));
                 stdout.printf (indent + "</Component>\n");
             }
         }
-- 
2.43.0


From b300543d513145b678c32651cc596527f3ebd830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 078/149] fix: wixl-heat took file names for format strings

---
 tools/wixl/wixl-heat.vala | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 03397ce..09057bf 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -90,11 +90,11 @@ public int main (string[] args) {
                     i++;
                 for (var j = last_path.length - i; j > 0; j--) {
                     indent = indent[0:-2];
-                    stdout.printf (indent + "</Directory>\n");
+                    stdout.puts (indent + "</Directory>\n");
                 }
             }
             for (; i < path.length; i++) {
-                stdout.printf (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), escape_filename (path[i])));
+                stdout.puts (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), escape_filename (path[i])));
                 indent += "  ";
             }
             last_path = path;
@@ -103,12 +103,12 @@ public int main (string[] args) {
                 var id = generate_id ("cmp", 1, file);
                 cmpref.append (id);
                 if (win64)
-                    stdout.printf (indent + "<Component Win64=\"$(var.Win64)\" Id=\"%s\" Guid=\"*\">\n".printf (id));
+                    stdout.puts (indent + "<Component Win64=\"$(var.Win64)\" Id=\"%s\" Guid=\"*\">\n".printf (id));
                 else
-                    stdout.printf (indent + "<Component Id=\"%s\" Guid=\"*\">\n".printf (id));
+                    stdout.puts (indent + "<Component Id=\"%s\" Guid=\"*\">\n".printf (id));
                 var source = sourcedir + Path.DIR_SEPARATOR_S;
-                stdout.printf (indent + "  <File Id=\"%s\" KeyPath=\"yes\" Source=\"%s\"/>\n".printf (generate_id ("fil", 1, source + file.replace ("$", "$$")), source + escape_filename (file)));
-                stdout.printf (indent + "</Component>\n");
+                stdout.puts (indent + "  <File Id=\"%s\" KeyPath=\"yes\" Source=\"%s\"/>\n".printf (generate_id ("fil", 1, source + file.replace ("$", "$$")), source + escape_filename (file)));
+                stdout.puts (indent + "</Component>\n");
             }
         }
     } catch (GLib.Error error) {
@@ -117,7 +117,7 @@ public int main (string[] args) {
 
     indent = indent[0:-2];
     foreach (var l in last_path) {
-      stdout.printf (indent + "</Directory>\n");
+      stdout.puts (indent + "</Directory>\n");
       indent = indent[0:-2];
     }
 
-- 
2.43.0


From e1103daacebb60b4a08c4f1be4fa7a609310bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 079/149] fix: wixl and wixl-heat failed on options that are
 not ASCII

---
 tools/wixl/wixl-heat.vala | 10 +++++-----
 tools/wixl/wixl.vala      |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 09057bf..8d9bbd5 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -9,11 +9,11 @@ static string[] exclude;
 static bool win64;
 
 private const OptionEntry[] options = {
-    { "directory-ref", 0, 0, OptionArg.STRING, ref dr, N_("Directory Ref"), null },
-    { "component-group", 0, 0, OptionArg.STRING, ref cg, N_("Component Group"), null },
-    { "var", 0, 0, OptionArg.STRING, ref vardir, N_("Variable for source dir"), null },
-    { "prefix", 'p', 0, OptionArg.STRING, ref prefix, N_("Prefix"), null },
-    { "exclude", 'x', 0, OptionArg.STRING_ARRAY, ref exclude, N_("Exclude prefix"), null },
+    { "directory-ref", 0, 0, OptionArg.FILENAME, ref dr, N_("Directory Ref"), null },
+    { "component-group", 0, 0, OptionArg.FILENAME, ref cg, N_("Component Group"), null },
+    { "var", 0, 0, OptionArg.FILENAME, ref vardir, N_("Variable for source dir"), null },
+    { "prefix", 'p', 0, OptionArg.FILENAME, ref prefix, N_("Prefix"), null },
+    { "exclude", 'x', 0, OptionArg.FILENAME_ARRAY, ref exclude, N_("Exclude prefix"), null },
     { "win64", 0, 0, OptionArg.NONE, ref win64, N_("Add Win64 Component"), null },
     { null }
 };
diff --git a/tools/wixl/wixl.vala b/tools/wixl/wixl.vala
index 36a7e91..e60cf6f 100644
--- a/tools/wixl/wixl.vala
+++ b/tools/wixl/wixl.vala
@@ -25,11 +25,11 @@ namespace Wixl {
         { "version", 0, 0, OptionArg.NONE, ref version, N_("Display version number"), null },
         { "verbose", 'v', 0, OptionArg.NONE, ref verbose, N_("Verbose output"), null },
         { "output", 'o', 0, OptionArg.FILENAME, ref output, N_("Output file"), null },
-        { "define", 'D', 0, OptionArg.STRING_ARRAY, ref defines, N_("Define variable"), null },
+        { "define", 'D', 0, OptionArg.FILENAME_ARRAY, ref defines, N_("Define variable"), null },
         { "arch", 'a', 0, OptionArg.CALLBACK, (void*)parse_arch, N_("Target architecture"), null },
-        { "includedir", 'I', 0, OptionArg.STRING_ARRAY, ref opt_includedirs, N_("Include directory"), null },
-        { "extdir", 0, 0, OptionArg.STRING, ref extdir, N_("System extension directory"), null },
-        { "wxidir", 0, 0, OptionArg.STRING, ref wxidir, N_("System include directory"), null },
+        { "includedir", 'I', 0, OptionArg.FILENAME_ARRAY, ref opt_includedirs, N_("Include directory"), null },
+        { "extdir", 0, 0, OptionArg.FILENAME, ref extdir, N_("System extension directory"), null },
+        { "wxidir", 0, 0, OptionArg.FILENAME, ref wxidir, N_("System include directory"), null },
         { "only-preproc", 'E', 0, OptionArg.NONE, ref preproc, N_("Stop after the preprocessing stage"), null },
         { "ext", 0, 0, OptionArg.STRING_ARRAY, ref opt_extensions, N_("Specify an extension"), null },
         { "", 0, 0, OptionArg.FILENAME_ARRAY, ref files, null, N_("INPUT_FILE1 [INPUT_FILE2]...") },
-- 
2.43.0


From 2d47fe0f19c046246e71e572d01563fac51604e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 080/149] fix: variables in the value of a definition were not
 expanded

---
 tools/wixl/preprocessor.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 36cfcb6..3e584c8 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -449,7 +449,7 @@ namespace Wixl {
                         var r = /^\s*(?P<name>.+?)\s*=\s*(?P<value>.+?)\s*$/;
                         if (r.match (reader.const_value () ?? "", 0, out info)) {
                             var name = remove_prefix ("var.", info.fetch_named ("name"));
-                            var value = unquote (info.fetch_named ("value"));
+                            var value = eval (unquote (info.fetch_named ("value")), file);
                             define_variable (name, value);
                         } else
                             throw new Wixl.Error.FAILED ("invalid define");
-- 
2.43.0


From f45d30303d0ec5e687ab56af25ace6d96f7ef78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 081/149] fix: wixl -E printed the first of several inputs only

---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 5ec5437..456daf8 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -136,7 +136,7 @@ namespace Wixl {
             var p = new Preprocessor (variables, includedirs, arch);
             var doc = p.preprocess (data, file);
             if (preproc_only) {
-                doc.dump_format (FileStream.fdopen (1, "w"));
+                doc.dump_format (GLib.stdout);
                 return;
             }
 
-- 
2.43.0


From 6042846b3b183800e65302229f0dd77448908ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 082/149] fix: an undefined variable was equal to every string
 for ~=

---
 tools/wixl/preprocessor.vala | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 3e584c8..7424bbc 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -218,7 +218,12 @@ namespace Wixl {
                 else if (accept ('!') && expect ('='))
                     return to_string (left) != to_string (term ());
                 else if (accept ('~') && expect ('=')) {
-                    return to_string (left).ascii_casecmp (to_string (term ())) == 0;
+                    string? a = to_string (left);
+                    string? b = to_string (term ());
+                    // an undefined variable equals no string
+                    if (a == null || b == null)
+                        return a == b;
+                    return a.ascii_casecmp (b) == 0;
                 }
 
                 if (op != Op.NONE) {
-- 
2.43.0


From d54ce897731e93987e0e2ba20895a6063a254c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 083/149] fix: the preprocessor evaluated conditions inside of
 parts left out

---
 tools/wixl/preprocessor.vala | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 7424bbc..3795fc4 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -403,12 +403,14 @@ namespace Wixl {
                     case "ifdef":
                         ifstack.push_head (context);
                         var value = (reader.const_value () ?? "").strip ();
-                        context = new IfContext (context.enabled && context.is_true, eval_variable (value, file) != null, IfContext.State.IF);
+                        var enabled = context.enabled && context.is_true;
+                        context = new IfContext (enabled, enabled && eval_variable (value, file) != null, IfContext.State.IF);
                         break;
                     case "ifndef":
                         ifstack.push_head (context);
                         var value = (reader.const_value () ?? "").strip ();
-                        context = new IfContext (context.enabled && context.is_true, eval_variable (value, file) == null, IfContext.State.IF);
+                        var enabled = context.enabled && context.is_true;
+                        context = new IfContext (enabled, enabled && eval_variable (value, file) == null, IfContext.State.IF);
                         break;
                     case "elseif":
                         if (ifstack.is_empty ())
@@ -417,7 +419,7 @@ namespace Wixl {
                             throw new Wixl.Error.FAILED ("Unmatched elseif");
                         context.state = IfContext.State.ELSEIF;
                         var value = (reader.const_value () ?? "").strip ();
-                        context.is_true = context.never_true && eval_condition (value, file);
+                        context.is_true = context.enabled && context.never_true && eval_condition (value, file);
                         break;
                     case "else":
                         if (ifstack.is_empty ())
@@ -435,7 +437,8 @@ namespace Wixl {
                     case "if":
                         ifstack.push_head (context);
                         var value = (reader.const_value () ?? "").strip ();
-                        context = new IfContext (context.enabled && context.is_true, eval_condition (value, file), IfContext.State.IF);
+                        var enabled = context.enabled && context.is_true;
+                        context = new IfContext (enabled, enabled && eval_condition (value, file), IfContext.State.IF);
                         break;
                     default:
                         handled = false;
-- 
2.43.0


From 3da1c041df6394997c9ceefba52f60408bc0227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 084/149] fix: SELECT DISTINCT of a binary column crashed

---
 libmsi/distinct.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/libmsi/distinct.c b/libmsi/distinct.c
index 2d9aab9..5f31644 100644
--- a/libmsi/distinct.c
+++ b/libmsi/distinct.c
@@ -99,6 +99,23 @@ static unsigned distinct_view_fetch_int( LibmsiView *view, unsigned row, unsigne
     return dv->table->ops->fetch_int( dv->table, row, col, val );
 }
 
+static unsigned distinct_view_fetch_stream( LibmsiView *view, unsigned row, unsigned col, GsfInput **stm )
+{
+    LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
+
+    TRACE("%p %d %d %p\n", dv, row, col, stm );
+
+    if( !dv->table )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
+    if( row >= dv->row_count )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
+    row = dv->translation[ row ];
+
+    return dv->table->ops->fetch_stream( dv->table, row, col, stm );
+}
+
 static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
@@ -250,7 +267,7 @@ static unsigned distinct_view_find_matching_rows( LibmsiView *view, unsigned col
 static const LibmsiViewOps distinct_ops =
 {
     distinct_view_fetch_int,
-    NULL,
+    distinct_view_fetch_stream,
     NULL,
     NULL,
     NULL,
-- 
2.43.0


From 008dedeed7559ea3ec3d466841f66aeb3bd56068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 085/149] fix: SELECT DISTINCT executed again returned rows
 twice

---
 libmsi/distinct.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/distinct.c b/libmsi/distinct.c
index 5f31644..0b896a8 100644
--- a/libmsi/distinct.c
+++ b/libmsi/distinct.c
@@ -135,6 +135,9 @@ static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
     if( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
+    /* the query may be executed again */
+    msi_free( dv->translation );
+    dv->row_count = 0;
     dv->translation = msi_alloc( r_count*sizeof(unsigned) );
     if( !dv->translation )
         return LIBMSI_RESULT_FUNCTION_FAILED;
-- 
2.43.0


From df314d31d03332435e5267e96ee48f8af064ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 086/149] fix: the primary keys of a table that does not exist
 were an uninitialized record

---
 libmsi/libmsi-database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 0d92f47..8fb2c1b 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2588,7 +2588,7 @@ libmsi_database_get_primary_keys (LibmsiDatabase *db,
                                   const char *table,
                                   GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %s\n", db, debugstr_a(table));
-- 
2.43.0


From 116df4b460e362eafa3ac2fefcc912fdf5a827a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 087/149] fix: applying a transform that is not a compound file
 crashed

---
 libmsi/libmsi-database.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 8fb2c1b..b604121 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2292,6 +2292,11 @@ unsigned _libmsi_database_apply_transform( LibmsiDatabase *db,
     }
     stg = gsf_infile_msole_new( in, NULL );
     g_object_unref(G_OBJECT(in));
+    if( !stg )
+    {
+        g_warning("open failed for transform %s\n", debugstr_a(szTransformFile));
+        return LIBMSI_RESULT_OPEN_FAILED;
+    }
 
     if( !gsf_infile_msole_get_class_id (GSF_INFILE_MSOLE(stg), uuid))
     {
-- 
2.43.0


From c12bcaff656268f2765d544b0f877c01d13974ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 088/149] fix: a huge string length in the string pool
 overflowed the bounds check

---
 libmsi/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 025c5e4..51b23b4 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -560,7 +560,7 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
             i += 1;
         }
 
-        if ( (offset + len) > datasize )
+        if ( len > datasize - offset )
         {
             g_critical("string table corrupt?\n");
             break;
-- 
2.43.0


From 0a2b0ab05b0955572e227167eb1bd322fb400559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 089/149] fix: opening a database with an unreadable stream
 crashed

---
 libmsi/libmsi-database.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index b604121..277a276 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2176,11 +2176,13 @@ static void cache_infile_structure( LibmsiDatabase *db )
     for (i = 0; i < n; i++)
     {
         GsfInput *in = gsf_infile_child_by_index(db->infile, i);
-        const char* name = gsf_input_name(in);
+        const char* name = in ? gsf_input_name(in) : NULL;
         const uint8_t *name8 = (const uint8_t *)name;
 
         if (!name) {
             g_warn_if_reached();
+            if (in)
+                g_object_unref(G_OBJECT(in));
             continue;
         }
         /* table streams are not in the _Streams table */
-- 
2.43.0


From 6b2682906285506540dd712cdd042accce40ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 090/149] fix: a column without a valid name crashed

---
 libmsi/table.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 659612a..86a9f35 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -699,9 +699,14 @@ static unsigned get_tablecolumns( LibmsiDatabase *db, const char *szTableName, L
                 g_critical("duplicate column %d\n", col);
                 continue;
             }
+            colinfo[col - 1].colname = msi_string_lookup_id( db->strings, id );
+            if (!colinfo[col - 1].colname)
+            {
+                g_critical("column %d has no name\n", col);
+                continue;
+            }
             colinfo[col - 1].tablename = msi_string_lookup_id( db->strings, table_id );
             colinfo[col - 1].number = col;
-            colinfo[col - 1].colname = msi_string_lookup_id( db->strings, id );
             colinfo[col - 1].type = read_table_int( table->data, i, table->colinfo[3].offset,
                                                     sizeof(uint16_t) ) - (1 << 15);
             colinfo[col - 1].offset = 0;
-- 
2.43.0


From 192488690d18077c4a30ffc2ea22e2eb683523c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 091/149] fix: a truncated transform row, or one with too many
 columns, was read out of bounds

---
 libmsi/table.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libmsi/table.c b/libmsi/table.c
index 86a9f35..c492547 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2439,6 +2439,12 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
     /* interpret the data */
     for (n = 0; n < rawsize;)
     {
+        if (rawsize - n < 2)
+        {
+            g_critical("borked.\n");
+            break;
+        }
+
         mask = rawdata[n] | (rawdata[n + 1] << 8);
         if (mask & 1)
         {
@@ -2448,6 +2454,11 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
              */
             sz = 2;
             num_cols = mask >> 8;
+            if (num_cols > tv->num_cols)
+            {
+                g_critical("borked.\n");
+                break;
+            }
             for (i = 0; i < num_cols; i++)
             {
                 if( (tv->columns[i].type & MSITYPE_STRING) &&
-- 
2.43.0


From ca272b946902afd63a8f9aeecb7677ba5b62e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 092/149] fix: a transform that lacks the stream of a binary
 field crashed

---
 libmsi/table.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index c492547..ab00bdc 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2214,17 +2214,17 @@ static LibmsiRecord *msi_get_transform_record( const LibmsiTableView *tv, const
             ofs += bytes_per_column( tv->db, &columns[i], bytes_per_strref );
 
             r = msi_record_encoded_stream_name( tv, rec, &encname );
-            if ( r != LIBMSI_RESULT_SUCCESS )
-                return NULL;
-
-            stm = gsf_infile_child_by_name( stg, encname );
             if ( r != LIBMSI_RESULT_SUCCESS )
             {
-                msi_free( encname );
+                g_object_unref( rec );
                 return NULL;
             }
 
-            _libmsi_record_load_stream( rec, i+1, stm );
+            stm = gsf_infile_child_by_name( stg, encname );
+            if (stm)
+                _libmsi_record_load_stream( rec, i+1, stm );
+            else
+                g_warning("stream %s is missing\n", debugstr_a(encname));
             TRACE(" field %d [%s]\n", i+1, debugstr_a(encname));
             msi_free( encname );
         }
-- 
2.43.0


From 11eb40c00cd180014775bab678b91a771d671dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 093/149] fix: the mask of a transform row was tested for
 columns beyond its 16 bits

---
 libmsi/table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index ab00bdc..1f4ac99 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2202,7 +2202,7 @@ static LibmsiRecord *msi_get_transform_record( const LibmsiTableView *tv, const
         if ( (mask&1) && (i>=(mask>>8)) )
             break;
         /* all keys must be present */
-        if ( (~mask&1) && (~columns[i].type & MSITYPE_KEY) && ((1<<i) & ~mask) )
+        if ( (~mask&1) && (~columns[i].type & MSITYPE_KEY) && (i >= 16 || ((1<<i) & ~mask)) )
             continue;
 
         if( MSITYPE_IS_BINARY(tv->columns[i].type) )
@@ -2482,7 +2482,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
             num_cols = tv->num_cols;
             for (i = 0; i < num_cols; i++)
             {
-                if ((tv->columns[i].type & MSITYPE_KEY) || ((1 << i) & mask))
+                if ((tv->columns[i].type & MSITYPE_KEY) || (i < 16 && ((1 << i) & mask)))
                 {
                     if ((tv->columns[i].type & MSITYPE_STRING) &&
                         !MSITYPE_IS_BINARY(tv->columns[i].type))
-- 
2.43.0


From 37f1c6278f5575f6d2543688db464a1b410f81da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 094/149] fix: transforming the columns of a table with a long
 name used uninitialized memory

---
 libmsi/table.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 1f4ac99..925f170 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2405,7 +2405,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
     LibmsiTableView *tv = NULL;
     unsigned r, n, sz, i, mask, num_cols, colcol = 0, rawsize = 0;
     LibmsiRecord *rec = NULL;
-    char coltable[32];
+    g_autofree char *coltable = NULL;
     const char *name;
 
     if (!transform)
@@ -2413,7 +2413,6 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
 
     name = transform->name;
 
-    coltable[0] = 0;
     TRACE("%p %p %p %s\n", db, stg, st, debugstr_a(name) );
 
     /* read the transform data */
@@ -2504,14 +2503,13 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
         rec = msi_get_transform_record( tv, st, stg, &rawdata[n], bytes_per_strref );
         if (rec)
         {
-            char table[32];
+            g_autofree char *table = NULL;
             unsigned number = LIBMSI_NULL_INT;
             unsigned row = 0;
 
             if (!strcmp( name, szColumns ))
             {
-                unsigned tablesz = 32;
-                _libmsi_record_get_string( rec, 1, table, &tablesz );
+                table = libmsi_record_get_string( rec, 1 );
                 number = libmsi_record_get_int( rec, 2 );
 
                 /*
@@ -2521,10 +2519,11 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                 if ( number == LIBMSI_NULL_INT )
                 {
                     /* reset the column number on a new table */
-                    if (strcmp( coltable, table ))
+                    if (g_strcmp0( coltable, table ))
                     {
                         colcol = 0;
-                        strcpy( coltable, table );
+                        g_free( coltable );
+                        coltable = g_strdup( table );
                     }
 
                     /* fix nul column numbers */
-- 
2.43.0


From 102fa3956526966ae333138e38e1eb89c55fc570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 095/149] fix: a transform leaving the columns of a table
 inconsistent, or changing a system table, corrupted memory

---
 libmsi/table.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 925f170..e8b9c73 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -958,26 +958,32 @@ err:
 static void msi_update_table_columns( LibmsiDatabase *db, const char *name )
 {
     LibmsiTable *table;
-    unsigned size, offset, old_count;
-    unsigned n;
+    LibmsiColumnInfo *colinfo = NULL;
+    unsigned size, old_size, col_count = 0;
+    unsigned r, n;
 
     table = find_cached_table( db, name );
-    old_count = table->col_count;
+    if (!table || !strcmp( name, szTables ) || !strcmp( name, szColumns ))
+        return;
+
+    r = table_get_column_info( db, name, &colinfo, &col_count );
+    if (r != LIBMSI_RESULT_SUCCESS && col_count)
+        return;
+
+    old_size = msi_table_get_row_size( db, table->colinfo, table->col_count, LONG_STR_BYTES );
     msi_free_colinfo( table->colinfo, table->col_count );
     msi_free( table->colinfo );
-    table->colinfo = NULL;
-
-    table_get_column_info( db, name, &table->colinfo, &table->col_count );
+    table->colinfo = colinfo;
+    table->col_count = col_count;
     if (!table->col_count) return;
 
     size = msi_table_get_row_size( db, table->colinfo, table->col_count, LONG_STR_BYTES );
-    offset = table->colinfo[table->col_count - 1].offset;
 
     for ( n = 0; n < table->row_count; n++ )
     {
         table->data[n] = msi_realloc( table->data[n], size );
-        if (old_count < table->col_count)
-            memset( &table->data[n][offset], 0, size - offset );
+        if (old_size < size)
+            memset( &table->data[n][old_size], 0, size - old_size );
     }
 }
 
-- 
2.43.0


From fc21c3bea5b01f50559e96971a07d55a9171e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 096/149] fix: a transform with an unreadable stream name
 crashed

---
 libmsi/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index e8b9c73..bfd3668 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2630,7 +2630,7 @@ unsigned msi_table_apply_transform( LibmsiDatabase *db, GsfInfile *stg )
         g_autofree char *name = NULL;
 
         encname = (const uint8_t *) gsf_infile_name_by_index(stg, i);
-        if ( encname[0] != 0xe4 || encname[1] != 0xa1 || encname[2] != 0x80)
+        if ( !encname || encname[0] != 0xe4 || encname[1] != 0xa1 || encname[2] != 0x80)
             continue;
 
         name = decode_streamname((char*)encname);
-- 
2.43.0


From b6f24e7261cda122a6079dd58fae6e8699d2cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 097/149] fix: a table with inconsistent columns crashed when
 it was released

---
 libmsi/table.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index bfd3668..0fbd919 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -547,8 +547,6 @@ static unsigned table_get_column_info( LibmsiDatabase *db, const char *name, Lib
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    *pcount = column_count;
-
     /* if there's no columns, there's no table */
     if (!column_count)
         return LIBMSI_RESULT_INVALID_PARAMETER;
@@ -566,6 +564,7 @@ static unsigned table_get_column_info( LibmsiDatabase *db, const char *name, Lib
         return LIBMSI_RESULT_FUNCTION_FAILED;
     }
     *pcols = columns;
+    *pcount = column_count;
     return r;
 }
 
@@ -967,7 +966,7 @@ static void msi_update_table_columns( LibmsiDatabase *db, const char *name )
         return;
 
     r = table_get_column_info( db, name, &colinfo, &col_count );
-    if (r != LIBMSI_RESULT_SUCCESS && col_count)
+    if (r != LIBMSI_RESULT_SUCCESS && r != LIBMSI_RESULT_INVALID_PARAMETER)
         return;
 
     old_size = msi_table_get_row_size( db, table->colinfo, table->col_count, LONG_STR_BYTES );
-- 
2.43.0


From 441d8eb7574f24c126cb0a10949e64a200752072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 098/149] fix: merging or exporting a table with an unnamed
 column crashed

---
 libmsi/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 0fbd919..f905519 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -699,7 +699,7 @@ static unsigned get_tablecolumns( LibmsiDatabase *db, const char *szTableName, L
                 continue;
             }
             colinfo[col - 1].colname = msi_string_lookup_id( db->strings, id );
-            if (!colinfo[col - 1].colname)
+            if (!colinfo[col - 1].colname || !*colinfo[col - 1].colname)
             {
                 g_critical("column %d has no name\n", col);
                 continue;
-- 
2.43.0


From f731b12e30a2db6cf530070e28ec5601584cb602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 099/149] fix: importing or merging a table without primary
 keys wrote out of bounds

---
 libmsi/libmsi-database.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 277a276..33b7cf8 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -897,6 +897,9 @@ static char *msi_build_createsql_postlude(char **primary_keys, unsigned num_keys
     static const char key_fmt[] = "`%s`, ";
     static const char postlude_fmt[] = "PRIMARY KEY %s)";
 
+    if (!num_keys)
+        return NULL;
+
     for (i = 0, size = 1; i < num_keys; i++)
         size += strlen(key_fmt) + strlen(primary_keys[i]) - 2;
 
-- 
2.43.0


From b2e73031a9ceae7d4cdb72f82e73d9ecb6fe77e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 100/149] fix: strings without references in the string pool
 overflowed the sorted index

---
 libmsi/string.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 51b23b4..a6c4ce3 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -566,9 +566,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
             break;
         }
 
-        r = msi_addstring( st, n, data+offset, len, refs, StringPersistent );
-        if( r != n )
-            g_critical("Failed to add string %d\n", n );
+        /* an entry nobody refers to is free */
+        if (refs)
+        {
+            r = msi_addstring( st, n, data+offset, len, refs, StringPersistent );
+            if( r != n )
+                g_critical("Failed to add string %d\n", n );
+        }
         n++;
         offset += len;
     }
-- 
2.43.0


From 08efd443c4f3a7033c02cd58dadd4de6d576df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 101/149] fix: every database that was opened kept its file
 open for good

---
 libmsi/libmsi-database.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 33b7cf8..aa48efd 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2196,22 +2196,22 @@ static void cache_infile_structure( LibmsiDatabase *db )
                 g_autofree char *decname = NULL;
 
                 decname = decode_streamname(name + 3);
-                if ( !strcmp( decname, szStringPool ) ||
-                     !strcmp( decname, szStringData ) )
-                    continue;
-
-                r = _libmsi_open_table( db, decname, false );
-                g_warn_if_fail (r == LIBMSI_RESULT_SUCCESS);
+                if ( strcmp( decname, szStringPool ) &&
+                     strcmp( decname, szStringData ) )
+                {
+                    r = _libmsi_open_table( db, decname, false );
+                    g_warn_if_fail (r == LIBMSI_RESULT_SUCCESS);
+                }
             }
             else
             {
                 r = msi_alloc_stream(db, name, GSF_INPUT(in));
-                g_object_unref(G_OBJECT(in));
             }
         } else {
             msi_open_storage(db, name);
         }
 
+        g_object_unref(G_OBJECT(in));
     }
 }
 
-- 
2.43.0


From 0cdcca06bce453f6db2ec7bd2e8355e14710e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 102/149] fix: a failing merge kept the merged file open

---
 libmsi/libmsi-database.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index aa48efd..50bfa45 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2093,7 +2093,7 @@ libmsi_database_merge (LibmsiDatabase *db,
     struct list tabledata = LIST_INIT(tabledata);
     struct list *item, *cursor;
     MERGETABLE *table;
-    bool conflicts;
+    bool conflicts = false;
     unsigned r;
 
     TRACE("(%p, %p, %s)\n", db, merge,
@@ -2110,7 +2110,6 @@ libmsi_database_merge (LibmsiDatabase *db,
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
-    conflicts = false;
     LIST_FOR_EACH_ENTRY(table, &tabledata, MERGETABLE, entry)
     {
         if (table->numconflicts)
@@ -2133,6 +2132,10 @@ libmsi_database_merge (LibmsiDatabase *db,
         }
     }
 
+    if (conflicts)
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+
+done:
     LIST_FOR_EACH_SAFE(item, cursor, &tabledata)
     {
         table = LIST_ENTRY(item, MERGETABLE, entry);
@@ -2140,10 +2143,6 @@ libmsi_database_merge (LibmsiDatabase *db,
         free_merge_table(table);
     }
 
-    if (conflicts)
-        r = LIBMSI_RESULT_FUNCTION_FAILED;
-
-done:
     if (r != LIBMSI_RESULT_SUCCESS)
         g_set_error (error, LIBMSI_RESULT_ERROR, r, G_STRFUNC);
     g_object_unref(db);
-- 
2.43.0


From 9d1104fa8b547d0686e2d75c19f0402af921e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 103/149] fix: the column information of a query without
 columns was an uninitialized record

---
 libmsi/libmsi-query.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index 759613c..249ae0a 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -597,7 +597,7 @@ LibmsiResult _libmsi_query_get_column_info( LibmsiQuery *query, LibmsiColInfo in
 LibmsiRecord *
 libmsi_query_get_column_info (LibmsiQuery *query, LibmsiColInfo info, GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %d\n", query, info);
-- 
2.43.0


From 18834c0e3868b6f76de4e312e4cea7183fb69aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 104/149] fix: closing a query that cannot be closed leaked it
 and reported success

---
 libmsi/libmsi-query.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index 249ae0a..b486695 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -425,7 +425,7 @@ gboolean
 libmsi_query_close (LibmsiQuery *query, GError **error)
 {
     LibmsiView *view;
-    unsigned ret;
+    unsigned ret = LIBMSI_RESULT_FUNCTION_FAILED;
 
     TRACE("%p\n", query );
 
@@ -434,12 +434,8 @@ libmsi_query_close (LibmsiQuery *query, GError **error)
 
     g_object_ref(query);
     view = query->view;
-    if( !view )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
-    if( !view->ops->close )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
-
-    ret = view->ops->close( view );
+    if( view && view->ops->close )
+        ret = view->ops->close( view );
     g_object_unref(query);
 
     /* FIXME: raise error when it happens */
-- 
2.43.0


From d15a3dca7a158809ed2b78c3580c9cf787065fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 105/149] fix: importing into the _Streams table, and a failing
 import, leaked open files

---
 libmsi/libmsi-database.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 50bfa45..dda355b 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1005,7 +1005,10 @@ static unsigned construct_record(unsigned num_columns, char **types,
                     r = _libmsi_record_load_stream_from_file(*rec, i + 1, file);
                     g_free (file);
                     if (r != LIBMSI_RESULT_SUCCESS)
+                    {
+                        g_object_unref(*rec);
                         return LIBMSI_RESULT_FUNCTION_FAILED;
+                    }
                 }
                 break;
             default:
@@ -1033,7 +1036,7 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
 
     r = view->ops->get_dimensions( view, &num_rows, &num_cols );
     if (r != LIBMSI_RESULT_SUCCESS)
-        return r;
+        goto done;
 
     while (num_rows > 0)
     {
@@ -1059,7 +1062,7 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
     }
 
 done:
-    msi_free(view);
+    view->ops->delete(view);
     return r;
 }
 
-- 
2.43.0


From 779c06f8ab284b8b4e5665dc82d5d6462e98093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 106/149] fix: deleting, replacing or failing to insert a row
 of _Streams leaked it or left an empty row

---
 libmsi/libmsi-database.c |  1 +
 libmsi/streams.c         | 72 +++++++++++++++++++++++++---------------
 2 files changed, 46 insertions(+), 27 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index dda355b..c6a1b3b 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -526,6 +526,7 @@ void msi_destroy_stream( LibmsiDatabase *db, const char *stname )
 
             list_remove( &stream->entry );
             g_object_unref(G_OBJECT(stream->stm));
+            msi_free( stream->name );
             msi_free( stream );
             break;
         }
diff --git a/libmsi/streams.c b/libmsi/streams.c
index 025e53c..c5c9b32 100644
--- a/libmsi/streams.c
+++ b/libmsi/streams.c
@@ -83,6 +83,13 @@ static STREAM *create_stream(LibmsiStreamsView *sv, const char *name, bool encod
     return stream;
 }
 
+static void free_stream(STREAM *stream)
+{
+    if (stream->stream)
+        g_object_unref(G_OBJECT(stream->stream));
+    msi_free(stream);
+}
+
 static unsigned streams_view_fetch_int(LibmsiView *view, unsigned row, unsigned col, unsigned *val)
 {
     LibmsiStreamsView *sv = (LibmsiStreamsView *)view;
@@ -129,12 +136,12 @@ static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecor
     LibmsiStreamsView *sv = (LibmsiStreamsView *)view;
     STREAM *stream = NULL;
     GsfInput *stm;
-    char *name = NULL;
+    const char *name;
     unsigned r;
 
     TRACE("(%p, %d, %p, %08x)\n", view, row, rec, mask);
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     r = _libmsi_record_get_gsf_input(rec, 2, &stm);
@@ -147,36 +154,36 @@ static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecor
             goto done;
         }
 
-        stream = sv->streams[row];
-        name = strdup(msi_string_lookup_id(sv->db->strings, stream->str_index));
+        name = msi_string_lookup_id(sv->db->strings, sv->streams[row]->str_index);
     } else {
-        name = strdup(_libmsi_record_get_string_raw(rec, 1));
-        if (!name)
-        {
-            g_warning("failed to retrieve stream name\n");
-            goto done;
-        }
-
-        stream = create_stream(sv, name, false, stm);
+        name = _libmsi_record_get_string_raw(rec, 1);
+    }
+    if (!name)
+    {
+        g_warning("failed to retrieve stream name\n");
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+        goto done;
     }
 
-    if (!stream)
+    stream = create_stream(sv, name, false, stm);
+    if (!stream) {
+        r = LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
         goto done;
+    }
 
     r = msi_create_stream(sv->db, name, stm);
     if (r != LIBMSI_RESULT_SUCCESS)
     {
         g_warning("failed to create stream: %08x\n", r);
-        g_object_unref(G_OBJECT(stream->stream));
-        msi_free(stream);
+        free_stream(stream);
         goto done;
     }
 
+    if (sv->streams[row])
+        free_stream(sv->streams[row]);
     sv->streams[row] = stream;
 
 done:
-    msi_free(name);
-
     g_object_unref(G_OBJECT(stm));
 
     return r;
@@ -185,7 +192,7 @@ done:
 static unsigned streams_view_insert_row(LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary)
 {
     LibmsiStreamsView *sv = (LibmsiStreamsView *)view;
-    unsigned i;
+    unsigned i, r;
 
     TRACE("(%p, %p, %d, %d)\n", view, rec, row, temporary);
 
@@ -200,8 +207,18 @@ static unsigned streams_view_insert_row(LibmsiView *view, LibmsiRecord *rec, uns
     {
         sv->streams[i] = sv->streams[i - 1];
     }
+    sv->streams[row] = NULL;
 
-    return streams_view_set_row(view, row, rec, 0);
+    r = streams_view_set_row(view, row, rec, 0);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        sv->num_rows--;
+        for (i = row; i < sv->num_rows; i++)
+            sv->streams[i] = sv->streams[i + 1];
+        sv->streams[i] = NULL;
+    }
+
+    return r;
 }
 
 static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
@@ -211,7 +228,7 @@ static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
     char *encname;
     unsigned i;
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     name = msi_string_lookup_id(sv->db->strings, sv->streams[row]->str_index);
@@ -223,6 +240,9 @@ static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
 
     encname = encode_streamname(false, name);
     msi_destroy_stream(sv->db, encname);
+    msi_free(encname);
+
+    free_stream(sv->streams[row]);
 
     /* shift the remaining rows */
     for (i = row + 1; i < sv->num_rows; i++)
@@ -230,6 +250,7 @@ static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
         sv->streams[i - 1] = sv->streams[i];
     }
     sv->num_rows--;
+    sv->streams[sv->num_rows] = NULL;
 
     return LIBMSI_RESULT_SUCCESS;
 }
@@ -297,11 +318,7 @@ static unsigned streams_view_delete(LibmsiView *view)
     for (i = 0; i < sv->num_rows; i++)
     {
         if (sv->streams[i])
-        {
-            if (sv->streams[i]->stream)
-                g_object_unref(G_OBJECT(sv->streams[i]->stream));
-            msi_free(sv->streams[i]);
-        }
+            free_stream(sv->streams[i]);
     }
 
     msi_free(sv->streams);
@@ -373,7 +390,8 @@ static unsigned add_stream_to_table(const char *name, GsfInput *stm, void *opaqu
 
     if (!streams_set_table_size(sv, ++sv->num_rows))
     {
-        msi_free(stream);
+        sv->num_rows--;
+        free_stream(stream);
         return LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
     }
 
@@ -407,7 +425,7 @@ unsigned streams_view_create(LibmsiDatabase *db, LibmsiView **view)
     r = add_streams_to_table(sv);
     if (r)
     {
-        msi_free( sv );
+        streams_view_delete( &sv->view );
         return r;
     }
 
-- 
2.43.0


From c41570b3f4c77c157b922e2f053df74cde93a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 107/149] fix: deleting, replacing or failing to insert a row
 of _Storages leaked it or left an empty row

---
 libmsi/libmsi-database.c |  5 ++++-
 libmsi/storages.c        | 44 +++++++++++++++++++++++++++++-----------
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index c6a1b3b..0b8c789 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -208,7 +208,7 @@ unsigned msi_open_storage( LibmsiDatabase *db, const char *stname )
 {
     unsigned r = LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
     LibmsiStorage *storage;
-    GsfInput *in;
+    GsfInput *in = NULL;
 
     LIST_FOR_EACH_ENTRY( storage, &db->storages, LibmsiStorage, entry )
     {
@@ -237,6 +237,8 @@ unsigned msi_open_storage( LibmsiDatabase *db, const char *stname )
 
 done:
     if (r != LIBMSI_RESULT_SUCCESS) {
+        if (in)
+            g_object_unref(G_OBJECT(in));
         msi_free(storage->name);
         msi_free(storage);
     }
@@ -316,6 +318,7 @@ void msi_destroy_storage( LibmsiDatabase *db, const char *stname )
 
             list_remove( &storage->entry );
             g_object_unref(G_OBJECT(storage->stg));
+            msi_free( storage->name );
             msi_free( storage );
             break;
         }
diff --git a/libmsi/storages.c b/libmsi/storages.c
index 9d26366..da9c854 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -115,12 +115,12 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
     LibmsiStorageView *sv = (LibmsiStorageView *)view;
     STORAGE *storage;
     GsfInput *stm;
-    char *name = NULL;
+    const char *name;
     unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
 
     TRACE("(%p, %p)\n", view, rec);
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     r = _libmsi_record_get_gsf_input(rec, 2, &stm);
@@ -134,13 +134,14 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
         }
 
         storage = sv->storages[row];
-        name = strdup(msi_string_lookup_id(sv->db->strings, storage->str_index));
+        name = msi_string_lookup_id(sv->db->strings, storage->str_index);
     } else {
-        name = strdup(_libmsi_record_get_string_raw(rec, 1));
+        name = _libmsi_record_get_string_raw(rec, 1);
     }
     if (!name)
     {
-        r = LIBMSI_RESULT_OUTOFMEMORY;
+        g_warning("failed to retrieve storage name\n");
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto done;
     }
 
@@ -153,12 +154,15 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
 
     storage = create_storage(sv, name);
     if (!storage)
+    {
         r = LIBMSI_RESULT_FUNCTION_FAILED;
+        goto done;
+    }
 
+    msi_free(sv->storages[row]);
     sv->storages[row] = storage;
 
 done:
-    msi_free(name);
     g_object_unref(G_OBJECT(stm));
 
     return r;
@@ -167,6 +171,7 @@ done:
 static unsigned storages_view_insert_row(LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary)
 {
     LibmsiStorageView *sv = (LibmsiStorageView *)view;
+    unsigned i, r;
 
     if (!storages_set_table_size(sv, ++sv->num_rows))
         return LIBMSI_RESULT_FUNCTION_FAILED;
@@ -174,9 +179,21 @@ static unsigned storages_view_insert_row(LibmsiView *view, LibmsiRecord *rec, un
     if (row == -1)
         row = sv->num_rows - 1;
 
-    /* FIXME have to readjust rows */
+    /* shift the rows to make room for the new row */
+    for (i = sv->num_rows - 1; i > row; i--)
+        sv->storages[i] = sv->storages[i - 1];
+    sv->storages[row] = NULL;
 
-    return storages_view_set_row(view, row, rec, 0);
+    r = storages_view_set_row(view, row, rec, 0);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        sv->num_rows--;
+        for (i = row; i < sv->num_rows; i++)
+            sv->storages[i] = sv->storages[i + 1];
+        sv->storages[i] = NULL;
+    }
+
+    return r;
 }
 
 static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
@@ -185,7 +202,7 @@ static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
     const char *name;
     unsigned i;
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     name = msi_string_lookup_id(sv->db->strings, sv->storages[row]->str_index);
@@ -196,6 +213,7 @@ static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
     }
 
     msi_destroy_storage(sv->db, name);
+    msi_free(sv->storages[row]);
 
     /* shift the remaining rows */
     for (i = row + 1; i < sv->num_rows; i++)
@@ -203,6 +221,7 @@ static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
         sv->storages[i - 1] = sv->storages[i];
     }
     sv->num_rows--;
+    sv->storages[sv->num_rows] = NULL;
 
     return LIBMSI_RESULT_SUCCESS;
 }
@@ -283,7 +302,7 @@ static unsigned storages_view_find_matching_rows(LibmsiView *view, unsigned col,
     LibmsiStorageView *sv = (LibmsiStorageView *)view;
     unsigned index = (uintptr_t)*handle;
 
-    TRACE("(%d, %d): %d\n", *row, col, val);
+    TRACE("(%p, %d, %d, %p, %p)\n", view, col, val, row, handle);
 
     if (col == 0 || col > NUM_STORAGES_COLS)
         return LIBMSI_RESULT_INVALID_PARAMETER;
@@ -300,7 +319,7 @@ static unsigned storages_view_find_matching_rows(LibmsiView *view, unsigned col,
     }
 
     *handle = (MSIITERHANDLE)(uintptr_t)++index;
-    if (index >= sv->num_rows)
+    if (index > sv->num_rows)
         return NO_MORE_ITEMS;
 
     return LIBMSI_RESULT_SUCCESS;
@@ -339,6 +358,7 @@ static unsigned add_storage_to_table(const char *name, GsfInfile *stg, void *opa
 
     if (!storages_set_table_size(sv, ++sv->num_rows))
     {
+        sv->num_rows--;
         msi_free(storage);
         return LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
     }
@@ -374,7 +394,7 @@ unsigned storages_view_create(LibmsiDatabase *db, LibmsiView **view)
     r = add_storages_to_table(sv);
     if (r)
     {
-        msi_free( sv );
+        storages_view_delete( &sv->view );
         return r;
     }
 
-- 
2.43.0


From 6f88743b144b7cb91c26b3d9eabbb5c0fbe96d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 108/149] fix: CREATE TABLE with a column listed twice in the
 primary key crashed

---
 libmsi/sql-parser.y | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 7b8d912..363ad8b 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -987,6 +987,8 @@ static bool sql_mark_primary_keys( column_info **cols,
         {
             if( strcmp( k->column, c->column ) )
                 continue;
+            if (c->type & MSITYPE_KEY) /* a column can only be listed once */
+                return false;
             c->type |= MSITYPE_KEY;
             found = true;
             if (idx != count)
-- 
2.43.0


From 8d57d23b6a59454136969ff614c48792adc1ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 109/149] fix: a query used freed memory after another one had
 dropped or altered its table

---
 libmsi/alter.c | 11 ++++-----
 libmsi/drop.c  |  2 +-
 libmsi/table.c | 66 +++++++++++++++++++++++++++++++++++++++-----------
 3 files changed, 58 insertions(+), 21 deletions(-)

diff --git a/libmsi/alter.c b/libmsi/alter.c
index 0c7a21c..d5b944b 100644
--- a/libmsi/alter.c
+++ b/libmsi/alter.c
@@ -137,18 +137,17 @@ static unsigned alter_add_column(LibmsiAlterView *av)
 static unsigned alter_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiAlterView *av = (LibmsiAlterView*)view;
-    unsigned ref;
 
     TRACE("%p %p\n", av, record);
 
+    /* _Streams and _Storages cannot be altered */
+    if (!av->table->ops->add_ref)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     if (av->hold == 1)
         av->table->ops->add_ref(av->table);
     else if (av->hold == -1)
-    {
-        ref = av->table->ops->release(av->table);
-        if (ref == 0)
-            av->table = NULL;
-    }
+        av->table->ops->release(av->table);
 
     if (av->colinfo)
         return alter_add_column(av);
diff --git a/libmsi/drop.c b/libmsi/drop.c
index 2fd2501..9cb759a 100644
--- a/libmsi/drop.c
+++ b/libmsi/drop.c
@@ -43,7 +43,7 @@ static unsigned drop_view_execute(LibmsiView *view, LibmsiRecord *record)
 
     TRACE("%p %p\n", dv, record);
 
-    if( !dv->table )
+    if( !dv->table || !dv->table->ops->drop )
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
     r = dv->table->ops->execute(dv->table, record);
diff --git a/libmsi/table.c b/libmsi/table.c
index f905519..ff784b8 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -61,6 +61,9 @@ struct _LibmsiTable
     unsigned col_count;
     LibmsiCondition persistent;
     int ref_count;
+    unsigned view_count;    /* views that refer to the table */
+    unsigned version;       /* changes with the columns of the table */
+    bool dropped;           /* freed with the last of its views */
     char name[1];
 };
 
@@ -367,6 +370,16 @@ static void free_table( LibmsiTable *table )
     msi_free( table );
 }
 
+/* removes the table from the database; its views do not work any more */
+static void drop_table( LibmsiTable *table )
+{
+    list_remove( &table->entry );
+    table->dropped = true;
+    table->version++;
+    if (!table->view_count)
+        free_table( table );
+}
+
 static unsigned msi_table_get_row_size( LibmsiDatabase *db, const LibmsiColumnInfo *cols, unsigned count, unsigned bytes_per_strref )
 {
     const LibmsiColumnInfo *last_col;
@@ -745,7 +758,7 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
         return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
     }
 
-    table = msi_alloc( sizeof (LibmsiTable) + strlen(name)*sizeof (char) );
+    table = msi_alloc_zero( sizeof (LibmsiTable) + strlen(name)*sizeof (char) );
     if( !table )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
@@ -974,6 +987,7 @@ static void msi_update_table_columns( LibmsiDatabase *db, const char *name )
     msi_free( table->colinfo );
     table->colinfo = colinfo;
     table->col_count = col_count;
+    table->version++;
     if (!table->col_count) return;
 
     size = msi_table_get_row_size( db, table->colinfo, table->col_count, LONG_STR_BYTES );
@@ -1029,15 +1043,22 @@ typedef struct _LibmsiTableView
     LibmsiColumnInfo *columns;
     unsigned           num_cols;
     unsigned           row_size;
+    unsigned           version;
     char          name[1];
 } LibmsiTableView;
 
+/* a view does not outlive a change of the columns of its table */
+static bool table_view_is_valid( const LibmsiTableView *tv )
+{
+    return tv->table && tv->version == tv->table->version;
+}
+
 static unsigned table_view_fetch_int( LibmsiView *view, unsigned row, unsigned col, unsigned *val )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
     unsigned offset, n;
 
-    if( !tv->table )
+    if ( !table_view_is_valid( tv ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     if( (col==0) || (col>tv->num_cols) )
@@ -1195,7 +1216,7 @@ static unsigned table_view_set_int( LibmsiTableView *tv, unsigned row, unsigned
 {
     unsigned offset, n, i;
 
-    if( !tv->table )
+    if ( !table_view_is_valid( tv ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     if( (col==0) || (col>tv->num_cols) )
@@ -1232,7 +1253,7 @@ static unsigned table_view_get_row( LibmsiView *view, unsigned row, LibmsiRecord
 {
     LibmsiTableView *tv = (LibmsiTableView *)view;
 
-    if (!tv->table)
+    if ( !table_view_is_valid( tv ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     return msi_view_get_row(tv->db, view, row, rec);
@@ -1323,7 +1344,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     LibmsiTableView *tv = (LibmsiTableView*)view;
     unsigned i, val, r = LIBMSI_RESULT_SUCCESS;
 
-    if ( !tv->table )
+    if ( !table_view_is_valid( tv ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* test if any of the mask bits are invalid */
@@ -1428,7 +1449,7 @@ static unsigned table_create_new_row( LibmsiView *view, unsigned *num, bool temp
 
     TRACE("%p %s\n", view, temporary ? "true" : "false");
 
-    if( !tv->table )
+    if ( !table_view_is_valid( tv ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     row = msi_alloc_zero( tv->row_size );
@@ -1483,6 +1504,9 @@ static unsigned table_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     TRACE("There are %d columns\n", tv->num_cols );
 
+    if ( !table_view_is_valid( tv ) )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
     return LIBMSI_RESULT_SUCCESS;
 }
 
@@ -1503,7 +1527,7 @@ static unsigned table_view_get_dimensions( LibmsiView *view, unsigned *rows, uns
         *cols = tv->num_cols;
     if( rows )
     {
-        if( !tv->table )
+        if ( !table_view_is_valid( tv ) )
             return LIBMSI_RESULT_INVALID_PARAMETER;
         *rows = tv->table->row_count;
     }
@@ -1519,6 +1543,9 @@ static unsigned table_view_get_column_info( LibmsiView *view,
 
     TRACE("%p %d %p %p\n", tv, n, name, type );
 
+    if ( !table_view_is_valid( tv ) )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
     if( ( n == 0 ) || ( n > tv->num_cols ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
@@ -1697,7 +1724,7 @@ static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
 
     TRACE("%p %d\n", tv, row);
 
-    if ( !tv->table )
+    if ( !table_view_is_valid( tv ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     r = table_view_get_dimensions( view, &num_rows, &num_cols );
@@ -1734,6 +1761,9 @@ static unsigned table_view_delete( LibmsiView *view )
 
     TRACE("%p\n", view );
 
+    if (!--tv->table->view_count && tv->table->dropped)
+        free_table( tv->table );
+
     tv->table = NULL;
     tv->columns = NULL;
 
@@ -1750,7 +1780,7 @@ static unsigned table_view_find_matching_rows( LibmsiView *view, unsigned col,
 
     TRACE("%p, %d, %u, %p\n", view, col, val, *handle);
 
-    if( !tv->table )
+    if ( !table_view_is_valid( tv ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     if( (col==0) || (col > tv->num_cols) )
@@ -1828,6 +1858,9 @@ static unsigned table_view_add_ref(LibmsiView *view)
 
     TRACE("%p %d\n", view, tv->table->ref_count);
 
+    if (tv->table->dropped)
+        return 0;
+
     for (i = 0; i < tv->table->col_count; i++)
     {
         if (tv->table->colinfo[i].type & MSITYPE_TEMPORARY)
@@ -1881,6 +1914,9 @@ static unsigned table_view_release(LibmsiView *view)
 
     TRACE("%p %d\n", view, ref);
 
+    if (tv->table->dropped)
+        return 0;
+
     for (i = 0; i < tv->table->col_count; i++)
     {
         if (tv->table->colinfo[i].type & MSITYPE_TEMPORARY)
@@ -1902,9 +1938,7 @@ static unsigned table_view_release(LibmsiView *view)
         /* a persistent table may hold uncommitted changes */
         if (!tv->table->row_count && tv->table->persistent == LIBMSI_CONDITION_FALSE)
         {
-            list_remove(&tv->table->entry);
-            free_table(tv->table);
-            table_view_delete(view);
+            drop_table(tv->table);
         }
     }
 
@@ -1962,6 +1996,9 @@ static unsigned table_view_drop(LibmsiView *view)
 
     TRACE("dropping table %s\n", debugstr_a(tv->name));
 
+    if (!table_view_is_valid(tv))
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
     for (i = tv->table->col_count - 1; i >= 0; i--)
     {
         r = table_view_remove_column(view, tv->table->colinfo[i].tablename,
@@ -1990,8 +2027,7 @@ static unsigned table_view_drop(LibmsiView *view)
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
-    list_remove(&tv->table->entry);
-    free_table(tv->table);
+    drop_table(tv->table);
 
 done:
     g_object_unref(rec);
@@ -2054,6 +2090,8 @@ unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **v
     tv->db = db;
     tv->columns = tv->table->colinfo;
     tv->num_cols = tv->table->col_count;
+    tv->version = tv->table->version;
+    tv->table->view_count++;
     tv->row_size = msi_table_get_row_size( db, tv->table->colinfo, tv->table->col_count, LONG_STR_BYTES );
 
     TRACE("%s one row is %d bytes\n", debugstr_a(name), tv->row_size );
-- 
2.43.0


From 112384cdae98e0fe92dd3435ab4292a7d37d869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 110/149] fix: a single quote at the end of a query wrote out
 of bounds

---
 libmsi/sql-parser.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 363ad8b..b20d27d 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -826,8 +826,8 @@ unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **
     unsigned len = strdata->len;
 
     /* match quotes */
-    if( ( (p[0]=='`') && (p[len-1]!='`') ) ||
-        ( (p[0]=='\'') && (p[len-1]!='\'') ) )
+    if( ( (p[0]=='`') && (len < 2 || p[len-1]!='`') ) ||
+        ( (p[0]=='\'') && (len < 2 || p[len-1]!='\'') ) )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* if there's quotes, remove them */
-- 
2.43.0


From aae63c814c8fcbd7915d332511c1b14e43c8d6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 111/149] fix: the name of a stream that is not UTF-8 was read
 and written out of bounds

---
 libmsi/table.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index ff784b8..98008da 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -204,7 +204,7 @@ char *decode_streamname(const char *in)
     while ( *p )
     {
         uint8_t ch = *p;
-        if( (ch == 0xe3 && p[1] >= 0xa0) || (ch == 0xe4 && p[1] < 0xa0) )
+        if( p[1] && p[2] && ((ch == 0xe3 && p[1] >= 0xa0) || (ch == 0xe4 && p[1] < 0xa0)) )
         {
             /* UTF-8 encoding of 0x3800..0x47ff.  */
             *q++ = mime2utf(p[2]&0x7f);
@@ -213,7 +213,7 @@ char *decode_streamname(const char *in)
             count += 2;
             continue;
         }
-        if( ch == 0xe4 && p[1] == 0xa0 ) {
+        if( ch == 0xe4 && p[1] == 0xa0 && p[2] ) {
             /* UTF-8 encoding of 0x4800..0x483f.  */
             *q++ = mime2utf(p[2]&0x7f);
             p += 3;
@@ -221,13 +221,13 @@ char *decode_streamname(const char *in)
             continue;
         }
         *q++ = *p++;
-        if( ch >= 0xc1) {
+        if( ch >= 0xc1 && *p ) {
             *q++ = *p++;
         }
-        if( ch >= 0xe0) {
+        if( ch >= 0xe0 && *p ) {
             *q++ = *p++;
         }
-        if( ch >= 0xf0) {
+        if( ch >= 0xf0 && *p ) {
             *q++ = *p++;
         }
         count++;
-- 
2.43.0


From 85b74a0e6cb0bdef214c28c2a3975f239b58323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 112/149] fix: a query ending in a minus sign was parsed
 forever

---
 libmsi/tokenize.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libmsi/tokenize.c b/libmsi/tokenize.c
index 20a3327..2289cee 100644
--- a/libmsi/tokenize.c
+++ b/libmsi/tokenize.c
@@ -158,7 +158,7 @@ static const char isIdChar[] = {
 
 /*
 ** Return the length of the token that begins at z[0].  Return
-** -1 if the token is (or might be) incomplete.  Store the token
+** zero if there is none.  Store the token
 ** type in *tokenType before returning.
 */
 int sql_get_token(const char *zz, int *tokenType, int *skip){
@@ -172,7 +172,6 @@ int sql_get_token(const char *zz, int *tokenType, int *skip){
       *tokenType = TK_SPACE;
       return i;
     case '-':
-      if( z[1]==0 ) return -1;
       *tokenType = TK_MINUS;
       return 1;
     case '(':
@@ -209,7 +208,7 @@ int sql_get_token(const char *zz, int *tokenType, int *skip){
     case '!':
       if( z[1]!='=' ){
         *tokenType = TK_ILLEGAL;
-        return 2;
+        return 1;
       }else{
         *tokenType = TK_NE;
         return 2;
-- 
2.43.0


From cd444824e697412d85e420bf1c58db8d3c1be3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 113/149] fix: a query used freed memory after the database had
 been committed

---
 libmsi/table.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 98008da..7b9f2ae 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2129,8 +2129,7 @@ unsigned _libmsi_database_commit_tables( LibmsiDatabase *db, unsigned bytes_per_
                   debugstr_a(table->name), r);
             return r;
         }
-        list_remove(&table->entry);
-        free_table(table);
+        drop_table(table);
     }
 
     return r;
-- 
2.43.0


From 4a69ca28b450acdf45c568cb96faa58fcac46178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 114/149] fix: a transform of the _Streams or _Storages table
 corrupted memory

---
 libmsi/table.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmsi/table.c b/libmsi/table.c
index 7b9f2ae..95e0dad 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2457,6 +2457,10 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
 
     TRACE("%p %p %p %s\n", db, stg, st, debugstr_a(name) );
 
+    /* these are not stored as tables */
+    if ( !strcmp( name, szStreams ) || !strcmp( name, szStorages ) )
+        return LIBMSI_RESULT_INVALID_TABLE;
+
     /* read the transform data */
     read_stream_data( stg, name, &rawdata, &rawsize );
     if ( !rawdata )
-- 
2.43.0


From 8fa5e2c0528d99723324b5960d0acc3246ef90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 115/149] fix: INSERT and UPDATE queries have no rows to fetch

libmsi_query_fetch() on an INSERT or UPDATE query returned a record of
null fields for each row of the table, with critical warnings.  DELETE
queries report no rows: do the same.
---
 libmsi/insert.c | 6 +++++-
 libmsi/update.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/libmsi/insert.c b/libmsi/insert.c
index a5828ec..4105d1c 100644
--- a/libmsi/insert.c
+++ b/libmsi/insert.c
@@ -271,7 +271,11 @@ static unsigned insert_view_get_dimensions( LibmsiView *view, unsigned *rows, un
     if( !sv )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
-    return sv->ops->get_dimensions( sv, rows, cols );
+    /* nothing to fetch */
+    if( rows )
+        *rows = 0;
+
+    return sv->ops->get_dimensions( sv, NULL, cols );
 }
 
 static unsigned insert_view_get_column_info( LibmsiView *view, unsigned n, const char **name,
diff --git a/libmsi/update.c b/libmsi/update.c
index 8c5f1c7..e4d7179 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -157,7 +157,11 @@ static unsigned update_view_get_dimensions( LibmsiView *view, unsigned *rows, un
     if( !wv )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
-    return wv->ops->get_dimensions( wv, rows, cols );
+    /* nothing to fetch */
+    if( rows )
+        *rows = 0;
+
+    return wv->ops->get_dimensions( wv, NULL, cols );
 }
 
 static unsigned update_view_get_column_info( LibmsiView *view, unsigned n, const char **name,
-- 
2.43.0


From de8369710063e1ed569cb4ee1b22f5ae14b0e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 116/149] fix: wixl crashed on a component group that contains
 itself

It recursed until the stack overflowed.
---
 tools/wixl/builder.vala | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 456daf8..36fcb35 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -725,7 +725,13 @@ namespace Wixl {
             db.table_feature_components.add (feature.Id, component.Id);
         }
 
+        // the groups being added, each within the previous one
+        List<unowned WixComponentGroup> adding_groups;
+
         void feature_add_component_group (WixFeature feature, WixComponentGroup group) throws GLib.Error {
+            if (adding_groups.find (group) != null)
+                throw new Wixl.Error.FAILED ("component group %s contains itself", group.Id);
+            adding_groups.prepend (group);
             foreach (var node in group.children) {
                 var child = node as WixElement;
                 if (child is WixComponentGroupRef) {
@@ -734,6 +740,7 @@ namespace Wixl {
                     feature_add_component (feature, resolve<WixComponent> (child));
                 }
             }
+            adding_groups.remove (group);
         }
 
         public override void visit_component_ref (WixComponentRef ref) throws GLib.Error {
-- 
2.43.0


From c24408132a98e5cd676581a944032e198c4b005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 117/149] fix: wixl crashed on a directory within itself

With DirectoryRef, directories can form a cycle.  Building the path of one
of its components recursed until the stack overflowed, and without such a
component the Directory table had no root for them.
---
 tools/wixl/builder.vala | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 36fcb35..fab5420 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -498,9 +498,21 @@ namespace Wixl {
             medias.append (media);
         }
 
+        void check_directory_path (WixDirectory dir) throws GLib.Error {
+            var seen = new GenericSet<unowned WixDirectory> (direct_hash, direct_equal);
+
+            seen.add (dir);
+            for (var d = dir; d.parent is WixDirectory || d.parent is WixDirectoryRef; seen.add (d)) {
+                d = resolve<WixDirectory> (d.parent);
+                if (seen.contains (d))
+                    throw new Wixl.Error.FAILED ("directory %s is within itself", d.Id);
+            }
+        }
+
         public override void visit_directory (WixDirectory dir) throws GLib.Error {
             var defaultdir = dir.Name ?? ".";
 
+            check_directory_path (dir);
             if (dir.parent is WixProduct || dir.parent is WixFragment) {
                 if (dir.Id != "TARGETDIR")
                     throw new Wixl.Error.FAILED ("Invalid root directory");
@@ -782,9 +794,12 @@ namespace Wixl {
                 var dir = group.Directory != null ? find_element<WixDirectory> (group.Directory) : null;
                 if (dir == null)
                     throw new Wixl.Error.FAILED ("couldn't find the directory of component group %s", group.Id);
+                check_directory_path (dir);
                 return dir;
             } else if (comp.parent is WixDirectory || comp.parent is WixDirectoryRef) {
-                return resolve<WixDirectory> (comp.parent);
+                var dir = resolve<WixDirectory> (comp.parent);
+                check_directory_path (dir);
+                return dir;
             } else
                 throw new Wixl.Error.FAILED ("unhandled parent type %s", comp.parent.name);
         }
-- 
2.43.0


From d17ebc50e1fbd218d804c7765fb74663a85f716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 118/149] fix: names too long for the file were accepted and
 their data lost

A directory entry of the file holds 31 UTF-16 units.  Tables, streams and
storages with longer encoded names could be created, but committing wrote
entries without name or with a truncated one, that could not be read.
---
 libmsi/libmsi-database.c | 10 ++++++++++
 libmsi/msipriv.h         |  1 +
 libmsi/table.c           | 32 +++++++++++++++++++++++++++++++-
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 0b8c789..c7789fb 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -256,6 +256,11 @@ unsigned msi_create_storage( LibmsiDatabase *db, const char *stname, GsfInput *s
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_ACCESS_DENIED;
 
+    if (!stream_name_fits(stname)) {
+        g_warning("storage name %s is too long\n", debugstr_a(stname));
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+    }
+
     LIST_FOR_EACH_ENTRY( storage, &db->storages, LibmsiStorage, entry )
     {
         if( !strcmp( stname, storage->name ) )
@@ -399,6 +404,11 @@ unsigned msi_create_stream( LibmsiDatabase *db, const char *stname, GsfInput *st
         return LIBMSI_RESULT_ACCESS_DENIED;
 
     encname = encode_streamname(false, stname);
+    if (!encname || !stream_name_fits(encname)) {
+        g_warning("stream name %s is too long\n", debugstr_a(stname));
+        msi_free(encname);
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+    }
 
     LIST_FOR_EACH_ENTRY( stream, &db->streams, LibmsiStream, entry )
     {
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 086dd55..c5153b3 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -389,6 +389,7 @@ extern bool _libmsi_record_compare_fields(const LibmsiRecord *a, const LibmsiRec
 /* stream internals */
 extern void enum_stream_names( GsfInfile *stg );
 extern char *encode_streamname(bool bTable, const char *in);
+extern bool stream_name_fits(const char *encname);
 extern char *decode_streamname(const char *in);
 
 /* database internals */
diff --git a/libmsi/table.c b/libmsi/table.c
index 95e0dad..a4498d4 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -121,7 +121,7 @@ static int utf2mime(int x)
 
 char *encode_streamname(bool bTable, const char *in)
 {
-    unsigned count = MAX_STREAM_NAME;
+    unsigned count = MAX_STREAM_NAME + 1; /* with the terminating null */
     unsigned ch, next;
     char *out;
     char *p;
@@ -178,6 +178,30 @@ char *encode_streamname(bool bTable, const char *in)
     return NULL;
 }
 
+/* whether an encoded name is short enough for a directory entry */
+bool stream_name_fits(const char *encname)
+{
+    unsigned n = 0;
+
+    /* count UTF-16 units */
+    for( ; *encname; encname++ )
+        if( (*encname & 0xc0) != 0x80 )
+            n += (unsigned char)*encname >= 0xf0 ? 2 : 1;
+
+    return n <= MAX_STREAM_NAME;
+}
+
+static bool table_name_fits(const char *name)
+{
+    char *encname = encode_streamname( false, name );
+    char *full = encname ? g_strconcat( "\xe4\xa1\x80", encname, NULL ) : NULL;
+    bool ret = full && stream_name_fits( full );
+
+    g_free( full );
+    msi_free( encname );
+    return ret;
+}
+
 static int mime2utf(int x)
 {
     if( x<10 )
@@ -758,6 +782,12 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
         return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
     }
 
+    if( !table_name_fits( name ) )
+    {
+        g_warning("table name %s is too long\n", debugstr_a(name));
+        return LIBMSI_RESULT_INVALID_TABLE;
+    }
+
     table = msi_alloc_zero( sizeof (LibmsiTable) + strlen(name)*sizeof (char) );
     if( !table )
         return LIBMSI_RESULT_FUNCTION_FAILED;
-- 
2.43.0


From 30e5ce2e718d9ff35da15dff4722ff738db5e8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 119/149] fix: the stream of a record was empty after it had
 been read once

A new input stream started at the position of the record's data, which
committing the database, for example, leaves at its end.
---
 libmsi/libmsi-istream.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index e74e8fb..eaa8f00 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -148,6 +148,9 @@ libmsi_istream_new (GsfInput *input)
     GsfInput *dup = gsf_input_dup (input, NULL);
     g_return_val_if_fail (dup, NULL);
 
+    /* the copy has the position of the original, which may have been read */
+    gsf_input_seek (dup, 0, G_SEEK_SET);
+
     LibmsiIStream *self = g_object_new (LIBMSI_TYPE_ISTREAM, NULL);
     self->input = dup;
 
-- 
2.43.0


From 56e5dcf1b0cdad6e344549f928ffab083bf004ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 120/149] fix: skipping in a stream failed though it succeeded,
 and failures set no error

---
 libmsi/libmsi-istream.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index eaa8f00..bd0e256 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -51,7 +51,12 @@ libmsi_seek (GSeekable *seekable, goffset offset,
 {
     g_return_val_if_fail (LIBMSI_IS_ISTREAM(seekable), FALSE);
 
-    return !gsf_input_seek (LIBMSI_ISTREAM(seekable)->input, offset, type);
+    if (gsf_input_seek (LIBMSI_ISTREAM(seekable)->input, offset, type)) {
+        g_set_error (error, G_IO_ERROR, G_IO_ERROR_INVALID_ARGUMENT, "Invalid seek request");
+        return FALSE;
+    }
+
+    return TRUE;
 }
 
 static gboolean
@@ -99,8 +104,10 @@ input_stream_read (GInputStream  *stream,
         return 0;
 
     count = MIN(count, remaining);
-    if (!gsf_input_read (self->input, count, buffer))
+    if (!gsf_input_read (self->input, count, buffer)) {
+        g_set_error (error, G_IO_ERROR, G_IO_ERROR_FAILED, "Failed to read");
         return -1;
+    }
 
     return count;
 }
@@ -114,8 +121,11 @@ input_stream_skip (GInputStream *stream,
     LibmsiIStream *self = LIBMSI_ISTREAM (stream);
 
     count = MIN (count, gsf_input_remaining (self->input));
-    if (!gsf_input_seek (self->input, count, G_SEEK_CUR))
+    /* returns true on failure */
+    if (gsf_input_seek (self->input, count, G_SEEK_CUR)) {
+        g_set_error (error, G_IO_ERROR, G_IO_ERROR_FAILED, "Failed to seek");
         return -1;
+    }
 
     return count;
 }
-- 
2.43.0


From 5e9c867bfdc8f6d427742c8adca81536397f147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 121/149] fix: the string "-" was read as the integer 0

---
 libmsi/libmsi-record.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index b1b71c8..67e37bd 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -159,11 +159,13 @@ libmsi_record_get_field_count (const LibmsiRecord *self)
 
 static bool expr_int_from_string( const char *str, int *out )
 {
-    int x = 0;
+    guint32 x = 0; /* out of range values are truncated */
     const char *p = str;
 
     if( *p == '-' ) /* skip the minus sign */
         p++;
+    if( !*p )
+        return false;
     while ( *p )
     {
         if( (*p < '0') || (*p > '9') )
-- 
2.43.0


From a1f4ce324c7294ffba967ff62b5cf8dc828ebb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 122/149] fix: msidump took names with spaces in them, or
 wildcards, for several names

---
 tools/msidump.in | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/msidump.in b/tools/msidump.in
index a6e3b7c..99f497f 100644
--- a/tools/msidump.in
+++ b/tools/msidump.in
@@ -121,19 +121,20 @@ signature=${signature:-false}
 
 if $tables ; then
     TABLES=$(msiinfo tables "$1")
-    for i in $TABLES; do
+    while IFS= read -r i; do
         echo "Exporting table $i..."
         msiinfo export "$1" "$i" > "$destdir/$i.idt"
-    done
+    done <<< "$TABLES"
 fi
 
 if $streams ; then
     mkdir -p "$destdir/_Streams"
     STREAMS=$(msiinfo streams "$1")
-    for i in $STREAMS; do
+    while IFS= read -r i; do
+        [[ -n $i ]] || continue
         echo "Exporting stream $i..."
         msiinfo extract "$1" "$i" > "$destdir/_Streams/$i"
-    done
+    done <<< "$STREAMS"
 fi
 
 if $signature ; then
-- 
2.43.0


From e06bca541f5a4debc80fe33fabb56df542ded6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 123/149] fix: msidump failed, or wrote outside of its
 directory, for names with a slash

---
 tools/msidump.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/msidump.in b/tools/msidump.in
index 99f497f..3f76f75 100644
--- a/tools/msidump.in
+++ b/tools/msidump.in
@@ -123,7 +123,7 @@ if $tables ; then
     TABLES=$(msiinfo tables "$1")
     while IFS= read -r i; do
         echo "Exporting table $i..."
-        msiinfo export "$1" "$i" > "$destdir/$i.idt"
+        msiinfo export "$1" "$i" > "$destdir/${i//\//%2F}.idt"
     done <<< "$TABLES"
 fi
 
@@ -133,7 +133,7 @@ if $streams ; then
     while IFS= read -r i; do
         [[ -n $i ]] || continue
         echo "Exporting stream $i..."
-        msiinfo extract "$1" "$i" > "$destdir/_Streams/$i"
+        msiinfo extract "$1" "$i" > "$destdir/_Streams/${i//\//%2F}"
     done <<< "$STREAMS"
 fi
 
-- 
2.43.0


From 08ee00db89685e50adbbb40f37cd77f09479d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 124/149] fix: msidump wrote the streams of tables into the
 current directory

---
 tools/msidump.in | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/msidump.in b/tools/msidump.in
index 3f76f75..c5c2919 100644
--- a/tools/msidump.in
+++ b/tools/msidump.in
@@ -117,7 +117,13 @@ streams=${streams:-false}
 signature=${signature:-false}
 
 
-# Here we go
+# Here we go.  Exporting a table writes the streams it has into the current
+# directory.
+
+[[ $1 == /* ]] || set -- "$PWD/$1"
+unset CDPATH
+cd -- "$destdir"
+destdir=.
 
 if $tables ; then
     TABLES=$(msiinfo tables "$1")
-- 
2.43.0


From 70c440e480865e8b83abff0b392655ca2f3f9013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 125/149] fix: msidiff failed for files with a space in their
 name

---
 tools/msidiff.in | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/msidiff.in b/tools/msidiff.in
index 7d54aac..4be2ef8 100644
--- a/tools/msidiff.in
+++ b/tools/msidiff.in
@@ -139,14 +139,14 @@ for file in "$1" "$2" ; do
     fi
 done
 
-tmpdir=`mktemp -d ${TMPDIR:-/tmp}/msidiff.XXXXXX`
+tmpdir=`mktemp -d "${TMPDIR:-/tmp}/msidiff.XXXXXX"`
 
 mkdir "$tmpdir/old" "$tmpdir/new"
-msidump --signature --tables --directory "$tmpdir/old" $1 >/dev/null
-msidump --signature --tables --directory "$tmpdir/new" $2 >/dev/null
+msidump --signature --tables --directory "$tmpdir/old" "$1" >/dev/null
+msidump --signature --tables --directory "$tmpdir/new" "$2" >/dev/null
 if ${list:-false} || ${long:-false} ; then
-  msiextract --directory "$tmpdir/old/files" $1 >/dev/null
-  msiextract --directory "$tmpdir/new/files" $2 >/dev/null
+  msiextract --directory "$tmpdir/old/files" "$1" >/dev/null
+  msiextract --directory "$tmpdir/new/files" "$2" >/dev/null
 fi
 
 cd "$tmpdir"
-- 
2.43.0


From da6317443c23c68ee5d0f3263ed64a7ceaf7e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 126/149] fix: the exported text of an empty summary
 information could not be imported

---
 libmsi/libmsi-summary-info.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index cd5b5b8..4b4d57f 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -1024,7 +1024,7 @@ static unsigned parse_prop( const char *prop, const char *value, unsigned *pid,
 
 unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records, int num_columns )
 {
-    unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
+    unsigned r = LIBMSI_RESULT_SUCCESS;
     unsigned i, j;
     LibmsiSummaryInfo *si;
 
-- 
2.43.0


From 71dbf18b4326e90e497912a86ba7a3a99b227442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 127/149] fix: exporting a table with a slash in its name could
 write anywhere

---
 libmsi/libmsi-database.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index c7789fb..80661d9 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -991,6 +991,23 @@ done:
     return r;
 }
 
+/* a single component of a path, whatever the name */
+static gchar *
+msi_file_name (const char *name)
+{
+    gchar **parts;
+    gchar *str;
+
+    if (!strcmp (name, ".") || !strcmp (name, ".."))
+        return g_strdup (name[1] ? "%2E%2E" : "%2E");
+
+    parts = g_strsplit (name, "/", -1);
+    str = g_strjoinv ("%2F", parts);
+    g_strfreev (parts);
+
+    return str;
+}
+
 static unsigned construct_record(unsigned num_columns, char **types,
                              char **data, const char *name, LibmsiRecord **rec)
 {
@@ -1015,9 +1032,11 @@ static unsigned construct_record(unsigned num_columns, char **types,
                 if (*data[i])
                 {
                     unsigned r;
-                    char *file = g_build_filename (name, data[i], NULL);
+                    char *dir = msi_file_name (name);
+                    char *file = g_build_filename (dir, data[i], NULL);
                     r = _libmsi_record_load_stream_from_file(*rec, i + 1, file);
                     g_free (file);
+                    g_free (dir);
                     if (r != LIBMSI_RESULT_SUCCESS)
                     {
                         g_object_unref(*rec);
@@ -1238,7 +1257,7 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
     GInputStream *in = NULL;
     GOutputStream *out = NULL;
     gssize spliced = -1;
-    gchar **parts;
+    const char *name;
 
     if (!table_dir)
         goto end;
@@ -1250,9 +1269,10 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
     }
 
     /* a file of this directory, whatever the name */
-    parts = g_strsplit (g_object_get_data (G_OBJECT (gsfin), "stname"), "/", -1);
-    *str = g_strjoinv ("%2F", parts);
-    g_strfreev (parts);
+    name = g_object_get_data (G_OBJECT (gsfin), "stname");
+    if (!name)
+        goto end;
+    *str = msi_file_name (name);
     file = g_file_get_child (table_dir, *str);
     out = G_OUTPUT_STREAM (g_file_replace (file, NULL, FALSE, 0, NULL, error));
     in = G_INPUT_STREAM (libmsi_istream_new (gsfin));
@@ -1447,11 +1467,13 @@ static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *tabl
         }
 
         /* write out row 4 onwards, the data */
+        gchar *dir = msi_file_name (table);
         ExportRow export = {
             .fd = fd,
-            .table_dir = g_file_new_for_path (table),
+            .table_dir = g_file_new_for_path (dir),
             .error = error
         };
+        g_free (dir);
         r = _libmsi_query_iterate_records( view, 0, msi_export_row, &export);
 
         g_object_unref (export.table_dir);
-- 
2.43.0


From dc701b9facb6a4365bc1107dfaafea3c0432249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 128/149] fix: wixl crashed on a Custom or Show element without
 the action

---
 tools/wixl/builder.vala | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index fab5420..3dae03a 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1076,6 +1076,8 @@ namespace Wixl {
                 action.name = action.Action;
             if (action.name == "Show")
                 action.name = action.Dialog;
+            if (action.name == null)
+                throw new Wixl.Error.FAILED ("an action of %s has no name".printf (parent.name));
 
             var node = table.get_action (action.name);
 
-- 
2.43.0


From e1a41ceb6ac74c22d27a24708b5845e11f9c8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 129/149] fix: an action before one with the same number as
 another could come after it

---
 tools/wixl/msi.vala | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index bea5cef..a4e8234 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -425,7 +425,20 @@ namespace Wixl {
 
         void add_implicit_deps () {
             Action? prev = null;
-            foreach (var a in sorted_actions()) {
+            var list = sorted_actions ();
+
+            // what comes before an action comes before all actions that have
+            // the same number
+            for (unowned List<weak Action> l = list; l != null; l = l.next)
+                for (unowned List<weak Action> m = l.next; m != null && m.data.sequence == l.data.sequence; m = m.next) {
+                    if (l.data.sequence == -999)
+                        break;
+                    foreach (var dep in m.data.depends_on)
+                        if (dep.sequence == -999)
+                            l.data.add_dep (dep);
+                }
+
+            foreach (var a in list) {
                 if (a.sequence == -999)
                     continue;
                 if (prev != null)
-- 
2.43.0


From 7b4430c03052b8b2d0b0b67d96535878832c6fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 130/149] fix: msidiff -l printed an error for a package
 without files

---
 tools/msidiff.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/msidiff.in b/tools/msidiff.in
index 4be2ef8..8414587 100644
--- a/tools/msidiff.in
+++ b/tools/msidiff.in
@@ -145,6 +145,7 @@ mkdir "$tmpdir/old" "$tmpdir/new"
 msidump --signature --tables --directory "$tmpdir/old" "$1" >/dev/null
 msidump --signature --tables --directory "$tmpdir/new" "$2" >/dev/null
 if ${list:-false} || ${long:-false} ; then
+  mkdir "$tmpdir/old/files" "$tmpdir/new/files"
   msiextract --directory "$tmpdir/old/files" "$1" >/dev/null
   msiextract --directory "$tmpdir/new/files" "$2" >/dev/null
 fi
-- 
2.43.0


From 83306804215ea5939a43b3f0496d445c6b9ea5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 131/149] fix: a summary property that occurs with two types
 crashed

---
 libmsi/libmsi-summary-info.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 4b4d57f..f15c43f 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -311,7 +311,7 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
 {
     unsigned type;
     unsigned i;
-    LibmsiOLEVariant *property;
+    LibmsiOLEVariant value;
     uint32_t idofs, len;
     char *str = NULL;
     gboolean valid;
@@ -339,8 +339,6 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
             break;
         }
 
-        property = &prop[ propid ];
-
         if( dwOffset > sz || sz - dwOffset < 4 )
         {
             g_critical("not enough data for type %d %d \n", dwOffset, sz);
@@ -358,7 +356,7 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
         {
         case OLEVT_I2:
         case OLEVT_I4:
-            property->intval = read_dword(data, &dwOffset);
+            value.intval = read_dword(data, &dwOffset);
             break;
         case OLEVT_FILETIME:
             if( dwOffset + 8 > sz )
@@ -367,8 +365,8 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
                 valid = FALSE;
                 break;
             }
-            property->filetime = read_dword(data, &dwOffset);
-            property->filetime |= (guint64)read_dword(data, &dwOffset) << 32;
+            value.filetime = read_dword(data, &dwOffset);
+            value.filetime |= (guint64)read_dword(data, &dwOffset) << 32;
             break;
         case OLEVT_LPSTR:
             len = read_dword(data, &dwOffset);
@@ -392,17 +390,16 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
 
         /* check the type is the same as we expect */
         if( type == OLEVT_LPSTR && proptype == OLEVT_LPSTR) {
-           free_prop( property );
-           property->strval = str;
+           value.strval = str;
         }
         else if (type == proptype)
            ;
         else if( proptype == OLEVT_LPSTR) {
             g_return_if_fail(str != NULL);
             if( type == OLEVT_I2 || type == OLEVT_I4) {
-                property->intval = atoi( str );
+                value.intval = atoi( str );
             } else if( type == OLEVT_FILETIME) {
-                parse_filetime( str, &property->filetime );
+                parse_filetime( str, &value.filetime );
             } else {
                 g_critical("invalid type, it can't be converted\n");
                 msi_free(str);
@@ -418,7 +415,9 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
         }
 
         /* Now we now the type is valid, store it */
-        property->vt = proptype;
+        value.vt = proptype;
+        free_prop( &prop[ propid ] );
+        prop[ propid ] = value;
     }
 }
 
-- 
2.43.0


From 88919eb4b8e908d9f4a09c823694fd1274758d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 132/149] fix: a summary property that occurs with two types
 crashed

---
 libmsi/libmsi-summary-info.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index f15c43f..bd99a29 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -322,6 +322,7 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
     for( i = 0; i < cProperties; i++ )
     {
         valid = TRUE;
+        value.filetime = 0;
         int propid = read_dword(data, &idofs);
         unsigned dwOffset = read_dword(data, &idofs);
         int proptype;
-- 
2.43.0


From e8e90b9be05d96ed6cb17fff971398ed6e519196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 133/149] fix: an action was numbered after one it is to come
 before

An action without number goes after the one that precedes it in the
sorted order. When the number after that is already the one of an action
that it has to precede, as between ProgressDlg and ExecuteAction, take a
number further ahead.
---
 tools/wixl/msi.vala | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index a4e8234..b234a53 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -343,6 +343,8 @@ namespace Wixl {
             public string name;
             public string? condition;
             public int sequence = -999;
+            // the last number that comes before all that depends on it
+            public int last = int.MAX;
             public WixAction? action;
 
             public bool visited = false;
@@ -451,12 +453,28 @@ namespace Wixl {
             add_implicit_deps ();
             var sorted = sort_topological ();
 
+            sorted.reverse ();
+            foreach (var action in sorted) {
+                var last = action.sequence != -999 ? action.sequence : action.last;
+                foreach (var dep in action.depends_on)
+                    if (dep.last > last - 1)
+                        dep.last = last - 1;
+            }
+            sorted.reverse ();
+
             int sequence = 0;
             foreach (var action in sorted) {
-                if (action.sequence == -999)
-                    action.sequence = ++sequence;
+                if (action.sequence == -999) {
+                    if (sequence >= action.last && action.last > 0 && action.last > action.dep_max ()) {
+                        // no number is left after the previous action
+                        action.sequence = action.last;
+                    } else {
+                        action.sequence = ++sequence;
+                    }
+                } else {
+                    sequence = action.sequence;
+                }
 
-                sequence = action.sequence;
                 add (action.name, action.condition, action.sequence);
             }
         }
-- 
2.43.0


From 44874896e8e099008b8e34de892c4e90ffd4e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 134/149] fix: the name of the transaction file overflowed its
 buffer for a long path

---
 libmsi/libmsi-database.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 80661d9..8427af5 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -646,7 +646,6 @@ LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
     GsfOutput *out;
     GsfOutfile *stg = NULL;
     char *tmpfile = NULL;
-    char path[PATH_MAX];
 
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_SUCCESS;
@@ -654,13 +653,13 @@ LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
     db->rename_outpath = false;
     if( !db->outpath )
     {
-        strcpy( path, db->path );
         if (db->flags & LIBMSI_DB_FLAGS_TRANSACT)
 	{
-            strcat( path, ".tmp" );
+            db->outpath = g_strconcat(db->path, ".tmp", NULL);
             db->rename_outpath = true;
 	}
-        db->outpath = strdup(path);
+        else
+            db->outpath = g_strdup(db->path);
     }
 
     TRACE("%p %s\n", db, db->outpath);
-- 
2.43.0


From de09533c465dc05429778b5e8dfa8020ae140eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 135/149] fix: a backslash in a double-quoted string of a
 preprocessor condition was an escape

---
 tools/wixl/preprocessor.vala | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 3795fc4..79cf2f8 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -271,8 +271,27 @@ namespace Wixl {
                 return result;
             }
 
+            // the scanner would take a backslash in a string for an escape
+            string keep_backslashes (string str) {
+                var text = new StringBuilder ();
+                char quote = 0;
+
+                for (var i = 0; i < str.length; i++) {
+                    if (quote == 0 && (str[i] == '"' || str[i] == '\''))
+                        quote = str[i];
+                    else if (str[i] == quote)
+                        quote = 0;
+                    else if (quote == '"' && str[i] == '\\')
+                        text.append_c ('\\');
+                    text.append_c (str[i]);
+                }
+
+                return text.str;
+            }
+
             public bool eval (string str) throws GLib.Error {
-                scanner.input_text (str, str.length);
+                var text = keep_backslashes (str);
+                scanner.input_text (text, text.length);
                 var result = expr ();
 
                 if (!accept (TokenType.EOF))
-- 
2.43.0


From c3e8f83c56775f29882b69d1292d013066fccc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 136/149] fix: looking for the stream of a table in a new
 database leaked its name

---
 libmsi/table.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index a4498d4..b470fc0 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -288,13 +288,13 @@ unsigned read_stream_data( GsfInfile *stg, const char *stname,
     GsfInput *stm = NULL;
     char *encname;
 
+    if ( !stg )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     encname = encode_streamname(true, stname);
 
     TRACE("%s -> %s\n",debugstr_a(stname),debugstr_a(encname));
 
-    if ( !stg )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
-
     stm = gsf_infile_child_by_name(stg, encname );
     msi_free(encname);
     if( !stm )
-- 
2.43.0


From 1e060c7ef6a1e23fee04cc0d1533a866ac7d5313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:08 +0000
Subject: [PATCH 137/149] fix: exporting the summary information leaked its
 values

---
 libmsi/libmsi-database.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 8427af5..3cd4cdf 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1404,6 +1404,7 @@ static LibmsiResult msi_export_summaryinfo (LibmsiDatabase *db, int fd, GError *
                 goto end;
             msi_export_escape (val);
             str = g_strdup_printf ("%d\t%s\r\n", i, val);
+            g_free (val);
             sz = strlen (str);
             if (write (fd, str, sz) != sz)
                 goto end;
-- 
2.43.0


From 5f4047a975e23e1c65f006bdb8aa1a401ca3c97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:03 +0000
Subject: [PATCH 138/149] fix: a table that could not be created was leaked
 when the columns could not be written

---
 libmsi/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index b470fc0..52dae7b 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -864,7 +864,7 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
         /* add each column to the _Columns table */
         r = table_view_create( db, szColumns, &tv );
         if( r )
-            return r;
+            goto err;
 
         r = tv->ops->execute( tv, 0 );
         TRACE("tv execute returned %x\n", r);
-- 
2.43.0


From bdcf1d818558ef33d1697728bcd3c0dd72b4ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:30 +0000
Subject: [PATCH 139/149] fix: a value copied over another one leaked the first

---
 libmsi/libmsi-record.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index 67e37bd..025bb95 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -197,6 +197,9 @@ unsigned _libmsi_record_copy_field( LibmsiRecord *in_rec, unsigned in_n,
         in = &in_rec->fields[in_n];
         out = &out_rec->fields[out_n];
 
+        _libmsi_free_field( out );
+        out->type = LIBMSI_FIELD_TYPE_NULL;
+
         switch ( in->type )
         {
         case LIBMSI_FIELD_TYPE_NULL:
-- 
2.43.0


From 92e63f124e0fe5fff102cc73bd5c2fce9d9927be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 140/149] fix: msiinfo succeeded when its output could not be
 written

---
 tools/msiinfo.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index 1c90ea9..0bfe44f 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -778,5 +778,11 @@ int main(int argc, char **argv)
         g_clear_error(&error);
     }
 
+    /* what was printed may still be in the buffer */
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "%s: cannot write the output\n", g_get_prgname ());
+        result = 1;
+    }
+
     return result;
 }
-- 
2.43.0


From cd55e757f320fb3edacb8c66065316e0b25af537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 141/149] fix: wixl-heat succeeded when its output could not be
 written

---
 tools/wixl/wixl-heat.vala | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 8d9bbd5..d3b1f7c 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -135,5 +135,11 @@ public int main (string[] args) {
     stdout.printf ("</Wix>\n");
     stdout.printf ("<!-- generated with %s -->\n", Config.PACKAGE_STRING);
     stdout.printf ("<!-- %s -->\n", cmdline.replace ("--", "-"));
+
+    if (stdout.flush () != 0 || stdout.error () != 0) {
+        stderr.printf ("Cannot write the output\n");
+        return 1;
+    }
+
     return 0;
 }
-- 
2.43.0


From 10c716191df9de6d1836d18e57f0d7ce917857f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 142/149] fix: msiextract succeeded when its list could not be
 written

---
 tools/msiextract.vala | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index 9856a67..54990be 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -207,5 +207,10 @@ public int main (string[] args) {
         exit (1);
     }
 
+    if (GLib.stdout.flush () != 0 || GLib.stdout.error () != 0) {
+        GLib.stderr.printf (_("Cannot write the output\n"));
+        exit (1);
+    }
+
     return 0;
 }
-- 
2.43.0


From fe7b6bc2e515e667b74865daa8d469b9f4a97c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 143/149] fix: wixl -E succeeded when its output could not be
 written

---
 tools/wixl/builder.vala | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 3dae03a..5fc0a72 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -137,6 +137,8 @@ namespace Wixl {
             var doc = p.preprocess (data, file);
             if (preproc_only) {
                 doc.dump_format (GLib.stdout);
+                if (GLib.stdout.flush () != 0 || GLib.stdout.error () != 0)
+                    throw new Wixl.Error.FAILED ("cannot write the output");
                 return;
             }
 
-- 
2.43.0


From 3961cbf63913b304e0e5905b0b467119dfc69eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 144/149] fix: an export succeeded when the head of the file
 could not be written

---
 libmsi/libmsi-database.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 3cd4cdf..509dce7 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1445,26 +1445,32 @@ static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *tabl
         r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &rec);
         if (r == LIBMSI_RESULT_SUCCESS)
         {
-            msi_export_record( fd, rec, 1, NULL, error);
+            r = msi_export_record( fd, rec, 1, NULL, error);
             g_object_unref(rec);
         }
+        if (r != LIBMSI_RESULT_SUCCESS)
+            goto end;
 
         /* write out row 2, the column types */
         r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_TYPES, &rec);
         if (r == LIBMSI_RESULT_SUCCESS)
         {
-            msi_export_record( fd, rec, 1, NULL, error);
+            r = msi_export_record( fd, rec, 1, NULL, error);
             g_object_unref(rec);
         }
+        if (r != LIBMSI_RESULT_SUCCESS)
+            goto end;
 
         /* write out row 3, the table name + keys */
         r = _libmsi_database_get_primary_keys( db, table, &rec );
         if (r == LIBMSI_RESULT_SUCCESS)
         {
             libmsi_record_set_string( rec, 0, table );
-            msi_export_record( fd, rec, 0, NULL, error);
+            r = msi_export_record( fd, rec, 0, NULL, error);
             g_object_unref(rec);
         }
+        if (r != LIBMSI_RESULT_SUCCESS)
+            goto end;
 
         /* write out row 4 onwards, the data */
         gchar *dir = msi_file_name (table);
@@ -1477,9 +1483,12 @@ static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *tabl
         r = _libmsi_query_iterate_records( view, 0, msi_export_row, &export);
 
         g_object_unref (export.table_dir);
-        g_object_unref (view);
     }
 
+end:
+    if (view)
+        g_object_unref (view);
+
     return r;
 }
 
-- 
2.43.0


From 05e032780d4a519fe056419eb32b11e6ad66b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 145/149] fix: exporting a stream freed its error twice when
 the directory could not be made

---
 libmsi/libmsi-database.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 509dce7..313cbc6 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1264,6 +1264,7 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
     if (!g_file_make_directory_with_parents (table_dir, NULL, &err) &&
         !g_error_matches (err, G_IO_ERROR, G_IO_ERROR_EXISTS)) {
         g_propagate_error (error, err);
+        err = NULL;
         goto end;
     }
 
-- 
2.43.0


From d96fca340dc17b89fb8c8ab84ab58b02779c381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 146/149] fix: an exported stream could be cut without an
 error, and a failure leaked its name

---
 libmsi/libmsi-database.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 313cbc6..c52784b 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1274,9 +1274,12 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
         goto end;
     *str = msi_file_name (name);
     file = g_file_get_child (table_dir, *str);
-    out = G_OUTPUT_STREAM (g_file_replace (file, NULL, FALSE, 0, NULL, error));
+    out = (GOutputStream *) g_file_replace (file, NULL, FALSE, 0, NULL, error);
+    if (!out)
+        goto end;
     in = G_INPUT_STREAM (libmsi_istream_new (gsfin));
-    spliced = g_output_stream_splice (out, in, 0, NULL, NULL);
+    /* what is buffered is written when the file is closed */
+    spliced = g_output_stream_splice (out, in, G_OUTPUT_STREAM_SPLICE_CLOSE_TARGET, NULL, error);
 
 end:
     g_clear_error (&err);
@@ -1315,12 +1318,14 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
 
     count = libmsi_record_get_field_count (row);
     for (i = start; i <= count; i++) {
-        char *str;
+        char *str = NULL;
 
         _libmsi_record_get_gsf_input (row, i, &in);
         if (in) {
-            if (!msi_export_stream (in, table_dir, &str, error))
+            if (!msi_export_stream (in, table_dir, &str, error)) {
+                g_free (str);
                 goto end;
+            }
             g_object_unref (in);
             in = NULL;
         } else {
-- 
2.43.0


From 06e16f287094ff2c771b3a4c50e04e67bfad7b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 147/149] fix: msiinfo aborted after errors that are not those
 of the library

---
 tools/msiinfo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index 0bfe44f..dd17ea4 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -774,7 +774,8 @@ int main(int argc, char **argv)
     int result = cmd->func(cmd, argc - 1, argv + 1, &error);
     if (error != NULL) {
         g_printerr("error: %s\n", error->message);
-        print_libmsi_error(error->code);
+        if (error->domain == LIBMSI_RESULT_ERROR)
+            print_libmsi_error(error->code);
         g_clear_error(&error);
     }
 
-- 
2.43.0


From d05e58322f10d1f071503bf9fc0c0679dd6891b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 148/149] fix: a commit that could not write the file reported
 success in some cases

---
 libmsi/libmsi-database.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index c52784b..530d186 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -608,7 +608,17 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
 
     if ( db->outfile )
     {
-        if (!gsf_output_close(GSF_OUTPUT(db->outfile)) && committed) {
+        GsfOutput *sink = NULL;
+        bool ok;
+
+        g_object_get (db->outfile, "sink", &sink, NULL);
+        ok = gsf_output_close(GSF_OUTPUT(db->outfile));
+        /* after an error the file is dropped, which succeeds */
+        if (sink && gsf_output_error(sink))
+            ok = false;
+        if (sink)
+            g_object_unref(sink);
+        if (!ok && committed) {
             g_warning("failed to write %s\n", debugstr_a(db->outpath));
             ret = LIBMSI_RESULT_FUNCTION_FAILED;
             committed = false;
-- 
2.43.0


From cc8e1311ac5f5938001eb60ca8baf870f9be6a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 149/149] fix: a table that lost its columns was freed while a
 query referred to it

---
 libmsi/table.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 52dae7b..27e3176 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -657,15 +657,14 @@ static unsigned get_table( LibmsiDatabase *db, const char *name, LibmsiTable **t
     r = table_get_column_info( db, name, &table->colinfo, &table->col_count );
     if (r != LIBMSI_RESULT_SUCCESS)
     {
-        list_remove(&table->entry);
-        free_table( table );
+        /* views of a table that lost its columns may still refer to it */
+        drop_table( table );
         return r;
     }
     r = read_table_from_storage( db, table, db->infile );
     if (r != LIBMSI_RESULT_SUCCESS)
     {
-        list_remove(&table->entry);
-        free_table( table );
+        drop_table( table );
         return r;
     }
     *table_ret = table;
-- 
2.43.0

