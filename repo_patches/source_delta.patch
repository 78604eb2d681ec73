From 2ceaf23b7f96bbad909aae660ceee7495b8d9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 01/87] fix: report errors when writing a config block

write_config_file() ignored the state of the output stream, so a file
that could not be opened, a full disk or a failing close left a missing
or truncated file behind a call that reported success.
---
 vital/config/config_block_io.cxx | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/vital/config/config_block_io.cxx b/vital/config/config_block_io.cxx
index ba47e56..116c822 100644
--- a/vital/config/config_block_io.cxx
+++ b/vital/config/config_block_io.cxx
@@ -394,9 +394,22 @@ write_config_file( config_block_sptr const& config,
 
   // open output file and write each key/value to a line.
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path,
+          "Could not open file for writing." );
+  }
 
   write_config( config, ofile );
   ofile.close();
+
+  // Some write errors are not reported until the data is flushed or the file
+  // is closed.
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path,
+          "Error writing to file." );
+  }
 }
 
 
@@ -451,6 +464,12 @@ void write_config( config_block_sptr const& config,
     }
   }
   ofile.flush();
+
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( "<stream>",
+          "Error writing to output stream." );
+  }
 } // write_config_file
 
 } }   // end namespace
-- 
2.43.0


From ab4ad4b0ecda48a1bebac10e46aa02e1def8efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 02/87] fix: do not treat a config file read error as end of
 file

A read error in the middle of a config file was taken for end of file,
and the part read so far was returned as the whole configuration.
---
 vital/config/config_parser.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 85fc5a5..5326890 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -480,6 +480,13 @@ public:
     {
       if ( ! getline( str, line ) )
       {
+        // A read error is not the same as reaching the end of the file.
+        if ( str.bad() )
+        {
+          throw config_file_not_read_exception( m_current_file,
+                "Error reading from file." );
+        }
+
         // read failed.
         return false;
       }
-- 
2.43.0


From 13c3c8d323712012c1c6c2fad255c32445f1c988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 03/87] fix: honour the read-only attribute through config
 block views

Marking an entry read-only through a subblock view only recorded the mark
in the view itself: the entry could still be changed, and a mark made on
the viewed block was not reported by the view.
---
 vital/config/config_block.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index e888069..f4d5437 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -227,6 +227,11 @@ bool
 config_block
 ::is_read_only( config_block_key_t const& key ) const
 {
+  if ( m_parent )
+  {
+    return m_parent->is_read_only( m_name + block_sep + key );
+  }
+
   return 0 != m_ro_list.count( key );
 }
 
@@ -237,6 +242,12 @@ void
 config_block
 ::mark_read_only( config_block_key_t const& key )
 {
+  if ( m_parent )
+  {
+    m_parent->mark_read_only( m_name + block_sep + key );
+    return;
+  }
+
   m_ro_list.insert( key );
 }
 
-- 
2.43.0


From 92b788234dc995ab91e30399e166734202411aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 04/87] fix: make global config entries accessible through
 views

A view lists the entries of the _global block, but looked them up under
its own prefix, so reading, merging, printing or writing a view of a block
that has a global entry threw no_such_configuration_value_exception.
---
 vital/config/config_block.cxx | 39 ++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index f4d5437..198efe6 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -97,6 +97,10 @@ static bool does_not_begin_with( config_block_key_t const&  key,
 static config_block_key_t strip_block_name( config_block_key_t const& subblock,
                                             config_block_key_t const& key );
 
+/// private helper method to form the key an entry of a view has in its parent
+static config_block_key_t parent_key( config_block_key_t const& subblock,
+                                      config_block_key_t const& key );
+
 // Create an empty configuration.
 config_block_sptr
 config_block
@@ -167,7 +171,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->get_description( m_name + block_sep + key );
+    return m_parent->get_description( parent_key( m_name, key ) );
   }
 
   store_t::const_iterator i = m_descr_store.find( key );
@@ -188,7 +192,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->unset_value( m_name + block_sep + key );
+    m_parent->unset_value( parent_key( m_name, key ) );
   }
   else
   {
@@ -229,7 +233,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->is_read_only( m_name + block_sep + key );
+    return m_parent->is_read_only( parent_key( m_name, key ) );
   }
 
   return 0 != m_ro_list.count( key );
@@ -244,7 +248,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->mark_read_only( m_name + block_sep + key );
+    m_parent->mark_read_only( parent_key( m_name, key ) );
     return;
   }
 
@@ -313,7 +317,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->has_value( m_name + block_sep + key );
+    return m_parent->has_value( parent_key( m_name, key ) );
   }
 
   return ( 0 != m_store.count( key ) );
@@ -358,7 +362,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->i_get_value( m_name + block_sep + key );
+    return m_parent->i_get_value( parent_key( m_name, key ) );
   }
 
   store_t::const_iterator i = m_store.find( key );
@@ -382,7 +386,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->set_value( m_name + block_sep + key, value, descr );
+    m_parent->set_value( parent_key( m_name, key ), value, descr );
   }
   else
   {
@@ -530,6 +534,27 @@ strip_block_name( config_block_key_t const& subblock, config_block_key_t const&
 
 
 // ------------------------------------------------------------------
+// private helper method to form the key an entry of a view has in its parent
+/**
+ * This is the inverse of strip_block_name(): global entries are visible in
+ * every view under their own name.
+ *
+ * \param subblock  The name of the view.
+ * \param key       The key as seen in the view.
+ * \returns The key in the parent block.
+ */
+config_block_key_t
+parent_key( config_block_key_t const& subblock, config_block_key_t const& key )
+{
+  if ( starts_with( key, config_block::global_value + config_block::block_sep ) )
+  {
+    return key;
+  }
+
+  return subblock + config_block::block_sep + key;
+}
+
+
 /// Format config block in a printable stream
 void
 config_block::
-- 
2.43.0


From 9634f7f1b53e49e514ef915b0555584ceed7426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 05/87] fix: leave a config block unchanged when setting a
 value fails

Running out of memory while a new value was stored left behind an entry
with an empty value and no description, for which get_description() (and
with it merging and writing the block) throws.
---
 vital/config/config_block.cxx | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index 198efe6..9177b08 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -398,13 +398,33 @@ config_block
     }
 
     config_block_value_t temp( value );
-    m_store[key] = trim( temp ); // trim value in place. Leading and trailing blanks are evil!
+    trim( temp ); // trim value in place. Leading and trailing blanks are evil!
+    config_block_description_t temp_descr( descr );
+
+    // Create both entries before changing either of them, so that the block
+    // is left as it was if we run out of memory.
+    bool const new_descr = m_descr_store.insert( std::make_pair( key, config_block_description_t() ) ).second;
+    store_t::iterator it;
+    try
+    {
+      it = m_store.insert( std::make_pair( key, config_block_value_t() ) ).first;
+    }
+    catch ( ... )
+    {
+      if ( new_descr )
+      {
+        m_descr_store.erase( key );
+      }
+      throw;
+    }
+
+    it->second.swap( temp );
 
     // Only assign the description given if there is no stored description
     // for this key, or the given description is non-zero.
-    if ( ( m_descr_store.count( key ) == 0 ) || ( descr.size() > 0 ) )
+    if ( new_descr || ( descr.size() > 0 ) )
     {
-      m_descr_store[key] = descr;
+      m_descr_store[key].swap( temp_descr );
     }
   }
 }
-- 
2.43.0


From aa70145337e897d3fb9906a43368f6670aae9123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 06/87] fix: make getting a logger thread safe

The default logger factory searched and extended its map of loggers
without any lock, and the manager instance was tested without one.
---
 vital/logger/default_logger.cxx        | 2 ++
 vital/logger/default_logger.h          | 2 ++
 vital/logger/kwiver_logger_manager.cxx | 7 ++-----
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 44910df..4053f8f 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -259,6 +259,8 @@ logger_handle_t
 logger_factory_default
 ::get_logger( std::string const& name )
 {
+  std::lock_guard< std::mutex > guard( m_mutex );
+
   // look for logger in the map
   std::map< std::string, logger_handle_t >::iterator it = m_active_loggers.find( name );
   if (it != m_active_loggers.end() )
diff --git a/vital/logger/default_logger.h b/vital/logger/default_logger.h
index e81315e..63d445a 100644
--- a/vital/logger/default_logger.h
+++ b/vital/logger/default_logger.h
@@ -35,6 +35,7 @@
 #include "kwiver_logger_factory.h"
 
 #include <map>
+#include <mutex>
 #include <string>
 
 namespace kwiver {
@@ -71,6 +72,7 @@ public:
   virtual logger_handle_t get_logger( std::string const& name );
 
 private:
+  std::mutex m_mutex;           // serializes access to the logger map
   std::map< std::string, logger_handle_t > m_active_loggers;
 
 }; // end class logger_factory
diff --git a/vital/logger/kwiver_logger_manager.cxx b/vital/logger/kwiver_logger_manager.cxx
index 4830c47..39cb8b2 100644
--- a/vital/logger/kwiver_logger_manager.cxx
+++ b/vital/logger/kwiver_logger_manager.cxx
@@ -162,11 +162,8 @@ kwiver_logger_manager * kwiver_logger_manager
 {
   static std::mutex local_lock;          // synchronization lock
 
-  if (0 != s_instance)
-  {
-    return s_instance;
-  }
-
+  // The test must be made with the lock held, otherwise a thread could see
+  // the pointer before the object it refers to.
   std::lock_guard<std::mutex> lock(local_lock);
   if (0 == s_instance)
   {
-- 
2.43.0


From d9d98ac64e218b78c381877134c317e72d1a4ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 07/87] fix: log the time of a message correctly

The seconds were read from the clock a second time, so that seconds and
milliseconds could come from different readings, the milliseconds were
written as a fraction without leading zeros, and the buffer shared by
localtime() was used outside of the lock.
---
 vital/logger/default_logger.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 4053f8f..ecdb171 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -203,16 +203,16 @@ private:
     std::istringstream ss( msg );
 
     char buf[1024];
-    time(&t);
-    strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
 
     {
-      std::lock_guard< std::mutex > guard( lock ); // serialize access to stream
+      std::lock_guard< std::mutex > guard( lock ); // serialize access to stream and localtime()
+      strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
+
       std::ostream* str = &get_stream();
       while ( getline( ss, msg_part ) )
       {
         *str << buf
-             << '.' << fractional_seconds
+             << '.' << std::setw( 3 ) << std::setfill( '0' ) << fractional_seconds << std::setfill( ' ' )
              << ' ' << level_str << ' ' << location << msg_part << '\n';
       }
     }
-- 
2.43.0


From 8b8e5da542b91e608cb2fa47aca84d9090c9f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 08/87] fix: synchronize access to the plugin manager singleton

The instance pointer and the load-once flag were tested without holding
the lock that protects them.
---
 vital/algorithm_plugin_manager.cxx | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 41b7d30..638e150 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -321,11 +321,8 @@ algorithm_plugin_manager
 {
   static std::mutex local_lock;          // synchronization lock
 
-  if (0 != s_instance)
-  {
-    return *s_instance;
-  }
-
+  // The test must be made with the lock held, otherwise a thread could see
+  // the pointer before the object it refers to.
   std::lock_guard<std::mutex> lock(local_lock);
   if (0 == s_instance)
   {
@@ -345,11 +342,8 @@ algorithm_plugin_manager
    static bool first( true );
    static std::mutex local_lock;          // synchronization lock
 
-   if ( ! first )
-   {
-     return false;
-   }
-
+   // The test must be made with the lock held, otherwise a thread could
+   // continue before the plugins loaded by another one are visible to it.
    std::lock_guard<std::mutex> lock(local_lock);
    if ( first )
    {
-- 
2.43.0


From 05cdb899b20576e976206847036c74d1b321080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 09/87] fix: do not unload a plugin that registered algorithms

When a module reported that some of its registrations failed it was
closed, although the algorithms that had been registered stay in the
registrar and refer to its code.
---
 vital/algorithm_plugin_manager.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 638e150..3e3d6c9 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -247,7 +247,8 @@ public:
                 "more algorithms in plugin module, possibly due to duplicate "
                 "registration: " << module_path );
       // TODO: Throw exception here?
-      DL::CloseLibrary( library );
+      // The library must stay loaded: algorithms it did register refer to
+      // code and data in it.
       return false;
     }
     else
-- 
2.43.0


From 6a5fe6afa3a006b94327746264d396170b3e3485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 10/87] fix: report why a logger plugin could not be used

The reason was asked for after closing the library, which clears it.
---
 vital/logger/kwiver_logger_manager.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/logger/kwiver_logger_manager.cxx b/vital/logger/kwiver_logger_manager.cxx
index 39cb8b2..0c9f8c1 100644
--- a/vital/logger/kwiver_logger_manager.cxx
+++ b/vital/logger/kwiver_logger_manager.cxx
@@ -235,11 +235,11 @@ kwiver_logger_manager
     DL::GetSymbolAddress( m_impl->m_libHandle, "kwiver_logger_factory" ) );
   if ( ! fp )
   {
-    DL::CloseLibrary( m_impl->m_libHandle );
-
     std::stringstream str;
     str << "Unable to bind to function: kwiver_logger_factory() "
         << DL::LastError();
+
+    DL::CloseLibrary( m_impl->m_libHandle );
     throw std::runtime_error( str.str() );
   }
 
-- 
2.43.0


From f0735809fc6551e89e20509d34cffc5e26a5b5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 11/87] fix: fall back to the default logger if a plugin has no
 factory

A logger plugin whose entry point returned a null pointer made the first
get_logger() call dereference it.
---
 vital/logger/kwiver_logger_manager.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/logger/kwiver_logger_manager.cxx b/vital/logger/kwiver_logger_manager.cxx
index 0c9f8c1..b9bd258 100644
--- a/vital/logger/kwiver_logger_manager.cxx
+++ b/vital/logger/kwiver_logger_manager.cxx
@@ -245,6 +245,10 @@ kwiver_logger_manager
 
   // Get pointer to new logger factory object
   m_impl->m_logFactory.reset( fp() );
+  if ( ! m_impl->m_logFactory )
+  {
+    throw std::runtime_error( "Logger factory plug-in did not supply a factory." );
+  }
 }
 
 } } // end namespace
-- 
2.43.0


From f3cdd3b8205da8bd02a5a6c1eacbf7c4b9fd3219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 12/87] fix: do not share regular expression state between
 threads

Reading configuration files in several threads corrupted the match state
kept in static expressions and in the matcher's global work variables.
---
 vital/config/config_parser.cxx        |  7 +++++--
 vital/config/token_expander.cxx       |  4 +++-
 vital/kwiversys/RegularExpression.cxx | 22 +++++++++++-----------
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 5326890..cbcae41 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -544,8 +544,11 @@ public:
   {
     // Words are LHS tokens, which start with a letter, and can not end with a ':'
     // A *word* can contain these symbols "- _ : . /"
-    static kwiversys::RegularExpression re_word( "^[a-zA-Z][-a-zA-Z0-9.:/_]+[-a-zA-Z0-9./_]" );
-    static kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
+    // An expression holds the result of its last match, so each call needs its own.
+    static kwiversys::RegularExpression const word_pattern( "^[a-zA-Z][-a-zA-Z0-9.:/_]+[-a-zA-Z0-9./_]" );
+    static kwiversys::RegularExpression const flag_pattern( "^\\[[a-zA-Z,]+\\]" );
+    kwiversys::RegularExpression re_word( word_pattern );
+    kwiversys::RegularExpression re_flag( flag_pattern );
 
     // Test for end of line while processing
     if ( m_token_line.size() == 0)
diff --git a/vital/config/token_expander.cxx b/vital/config/token_expander.cxx
index 6fd60ce..a364610 100644
--- a/vital/config/token_expander.cxx
+++ b/vital/config/token_expander.cxx
@@ -86,7 +86,9 @@ token_expander::
 expand_token( std::string const& initial_string )
 {
   std::string new_value;
-  static kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([a-zA-Z0-9._:]+)?\\}" );
+  // An expression holds the result of its last match, so each call needs its own.
+  static kwiversys::RegularExpression const pattern( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([a-zA-Z0-9._:]+)?\\}" );
+  kwiversys::RegularExpression exp( pattern );
 
   std::string::const_iterator start, end;
   start = initial_string.begin();
diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 598e7ca..8274565 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -293,13 +293,13 @@ const unsigned char MAGIC = 0234;
 
 
 /*
- * Global work variables for compile().
+ * Work variables for compile(), one set for each thread.
  */
-static const char* regparse;    // Input-scan pointer.
-static       int   regnpar;     // () count.
-static       char  regdummy;
-static       char* regcode;     // Code-emit pointer; &regdummy = don't.
-static       long  regsize;     // Code size.
+static thread_local const char* regparse;    // Input-scan pointer.
+static thread_local       int   regnpar;     // () count.
+static thread_local       char  regdummy;
+static thread_local       char* regcode;     // Code-emit pointer; &regdummy = don't.
+static thread_local       long  regsize;     // Code size.
 
 /*
  * Forward declarations for compile()'s friends.
@@ -861,12 +861,12 @@ static void regoptail (char* p, const char* val) {
 
 
 /*
- * Global work variables for find().
+ * Work variables for find(), one set for each thread.
  */
-static const char*  reginput;   // String-input pointer.
-static const char*  regbol;     // Beginning of input, for ^ check.
-static const char* *regstartp;  // Pointer to startp array.
-static const char* *regendp;    // Ditto for endp.
+static thread_local const char*  reginput;   // String-input pointer.
+static thread_local const char*  regbol;     // Beginning of input, for ^ check.
+static thread_local const char* *regstartp;  // Pointer to startp array.
+static thread_local const char* *regendp;    // Ditto for endp.
 
 /*
  * Forwards.
-- 
2.43.0


From 1be76e93d57f43fa309fb618305b020bd97e2b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 13/87] fix: define the C functions on algorithms and camera
 maps outside any namespace

vital_algorithm_type_name, _impl_name, _get/_set/_check_impl_configuration
and vital_camera_map_* were defined inside namespace kwiver, so they did not
implement the extern "C" declarations of the headers and the library did
not export them.
---
 vital/bindings/c/algorithm.cxx  |  5 ++---
 vital/bindings/c/camera_map.cxx | 25 ++++++++++++-------------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 81f399e..4b49e12 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -52,7 +52,7 @@ namespace vital_c {
 SharedPointerCache< kwiver::vital::algorithm,
                     vital_algorithm_t > ALGORITHM_SPTR_CACHE( "algorithm" );
 
-}
+} }
 
 
 // ===========================================================================
@@ -127,5 +127,4 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
     );
   );
   return false;
-
-} } // end namespace
+}
diff --git a/vital/bindings/c/camera_map.cxx b/vital/bindings/c/camera_map.cxx
index 2d3c432..df9cd55 100644
--- a/vital/bindings/c/camera_map.cxx
+++ b/vital/bindings/c/camera_map.cxx
@@ -49,7 +49,7 @@ namespace vital_c {
 SharedPointerCache< vital::camera_map,
                     vital_camera_map_t > CAM_MAP_SPTR_CACHE( "camera_map" );
 
-}
+} }
 
 
 /// New, simple camera map
@@ -66,13 +66,13 @@ vital_camera_map_t* vital_camera_map_new( size_t length,
     // Create std::map of the paired items given
     // This assumes that the sptr type defined in the cache type is the same as
     // the type defined in C++-land (which is should be?)
-    vital::camera_map::map_camera_t cmap;
+    kwiver::vital::camera_map::map_camera_t cmap;
     for( size_t i=0; i < length; i++ )
     {
-      cmap[frame_numbers[i]] = vital_c::CAMERA_SPTR_CACHE.get( cameras[i] );
+      cmap[frame_numbers[i]] = kwiver::vital_c::CAMERA_SPTR_CACHE.get( cameras[i] );
     }
-    vital::camera_map_sptr cm_sptr( new vital::simple_camera_map( cmap ) );
-    vital_c::CAM_MAP_SPTR_CACHE.store( cm_sptr );
+    kwiver::vital::camera_map_sptr cm_sptr( new kwiver::vital::simple_camera_map( cmap ) );
+    kwiver::vital_c::CAM_MAP_SPTR_CACHE.store( cm_sptr );
     return reinterpret_cast<vital_camera_map_t*>( cm_sptr.get() );
   );
   return 0;
@@ -85,7 +85,7 @@ void vital_camera_map_destroy( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::destroy", eh,
-    vital_c::CAM_MAP_SPTR_CACHE.erase( cam_map );
+    kwiver::vital_c::CAM_MAP_SPTR_CACHE.erase( cam_map );
   );
 }
 
@@ -96,7 +96,7 @@ size_t vital_camera_map_size( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::size", eh,
-    return vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->size();
+    return kwiver::vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->size();
   );
   return 0;
 }
@@ -111,19 +111,18 @@ void vital_camera_map_get_map( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::get_map", eh,
-    vital::camera_map::map_camera_t map_cams =
-      vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->cameras();
+    kwiver::vital::camera_map::map_camera_t map_cams =
+      kwiver::vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->cameras();
     *length = map_cams.size();
     *frame_numbers = (unsigned int*)malloc(sizeof(unsigned int) * *length);
     *cameras = (vital_camera_t**)malloc(sizeof(vital_camera_t*) * *length);
     size_t i=0;
-    VITAL_FOREACH( vital::camera_map::map_camera_t::value_type const& p, map_cams )
+    VITAL_FOREACH( kwiver::vital::camera_map::map_camera_t::value_type const& p, map_cams )
     {
       (*frame_numbers)[i] = static_cast< unsigned int >(p.first);
-      vital_c::CAMERA_SPTR_CACHE.store( p.second );
+      kwiver::vital_c::CAMERA_SPTR_CACHE.store( p.second );
       (*cameras)[i] = reinterpret_cast<vital_camera_t*>( p.second.get() );
       ++i;
     }
   );
-
-} }
+}
-- 
2.43.0


From 99c579effe950b639e913877773e8c19082022f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 14/87] fix: do not overrun or leak the message of a C error
 handle

The copy of the message was one byte too short for its terminator, a message
already held by the handle was leaked, and reading or writing a configuration
file without an error handle dereferenced NULL on failure.
---
 vital/bindings/c/config_block.cxx    | 16 ++++------------
 vital/bindings/c/helpers/c_utils.cxx | 17 +++++++++++++++++
 vital/bindings/c/helpers/c_utils.h   | 26 +++++++++++++-------------
 3 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/vital/bindings/c/config_block.cxx b/vital/bindings/c/config_block.cxx
index 6437c1a..79f2ef8 100644
--- a/vital/bindings/c/config_block.cxx
+++ b/vital/bindings/c/config_block.cxx
@@ -404,21 +404,15 @@ read_config_file_helper( vital_error_handle_t* eh, Args... args )
   }
   catch ( kwiver::vital::config_file_not_found_exception const& e )
   {
-    eh->error_code = 1;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 1, e.what() );
   }
   catch ( kwiver::vital::config_file_not_read_exception const& e )
   {
-    eh->error_code = 2;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 2, e.what() );
   }
   catch ( kwiver::vital::config_file_not_parsed_exception const& e )
   {
-    eh->error_code = 3;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 3, e.what() );
   }
 
   return 0;
@@ -478,9 +472,7 @@ vital_config_block_file_write( vital_config_block_t*  cb,
     }
     catch ( kwiver::vital::config_file_write_exception const& e )
     {
-      eh->error_code = 1;
-      eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-      strcpy( eh->message, e.what() );
+      POPULATE_EH( eh, 1, e.what() );
     }
 
                 );
diff --git a/vital/bindings/c/helpers/c_utils.cxx b/vital/bindings/c/helpers/c_utils.cxx
index f21dff0..52d5e8f 100644
--- a/vital/bindings/c/helpers/c_utils.cxx
+++ b/vital/bindings/c/helpers/c_utils.cxx
@@ -39,6 +39,23 @@ namespace kwiver {
 namespace vital_c {
 
 
+void populate_error_handle( vital_error_handle_t *eh, int error_code,
+                            char const *msg )
+{
+  if( eh )
+  {
+    char *new_message = (char*)malloc( sizeof(char) * ( strlen( msg ) + 1 ) );
+    if( new_message )
+    {
+      std::strcpy( new_message, msg );
+    }
+    free( eh->message );
+    eh->error_code = error_code;
+    eh->message = new_message;
+  }
+}
+
+
 void make_string_list( std::vector<std::string> const &list,
                        unsigned int &length, char ** &strings )
 {
diff --git a/vital/bindings/c/helpers/c_utils.h b/vital/bindings/c/helpers/c_utils.h
index 16ec7ae..ab88523 100644
--- a/vital/bindings/c/helpers/c_utils.h
+++ b/vital/bindings/c/helpers/c_utils.h
@@ -59,21 +59,11 @@ static auto m_logger( kwiver::vital::get_logger( "vital.c_utils" ) );
  * Only does anything if error handle pointer is non-NULL.
  * \p msg should be a C string (char const*)
  *
- * \todo Verify memory management of message string. Memory can leak
- * if an error handle is used twice.
+ * Any message that the handle already holds is replaced.
  */
 #define POPULATE_EH(eh_ptr, ec, msg)                                         \
-  do                                                                         \
-  {                                                                          \
-    if( reinterpret_cast<vital_error_handle_t*>(eh_ptr) != NULL )            \
-    {                                                                        \
-      vital_error_handle_t *PEH_eh_ptr_cast =                                \
-        reinterpret_cast<vital_error_handle_t*>(eh_ptr);                     \
-      PEH_eh_ptr_cast->error_code = ec;                                      \
-      PEH_eh_ptr_cast->message = (char*)malloc(sizeof(char) * strlen(msg));  \
-      strcpy(PEH_eh_ptr_cast->message, msg);                                 \
-    }                                                                        \
-  } while(0)
+  kwiver::vital_c::populate_error_handle(                                    \
+    reinterpret_cast<vital_error_handle_t*>(eh_ptr), ec, msg )
 
 
 /// Standardized try/catch for general use.
@@ -131,6 +121,16 @@ namespace kwiver {
 namespace vital_c {
 
 
+/// Set error code and message of the given error handle, if there is one
+/**
+ * The previous message of the handle is released. If there is no memory for
+ * the new message, only the code is set.
+ */
+VITAL_C_EXPORT
+void populate_error_handle( vital_error_handle_t *eh, int error_code,
+                            char const *msg );
+
+
 /// Common shared pointer cache object
 template < typename vital_t,  // VITAL type
            typename C_t >     // C Interface opaque type
-- 
2.43.0


From 1b68b87cdd5d733f113708f8717b10b42a840d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 15/87] fix: make room for the terminator of strings listed
 through the C API

---
 vital/bindings/c/helpers/c_utils.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/helpers/c_utils.cxx b/vital/bindings/c/helpers/c_utils.cxx
index 52d5e8f..f5349cd 100644
--- a/vital/bindings/c/helpers/c_utils.cxx
+++ b/vital/bindings/c/helpers/c_utils.cxx
@@ -63,7 +63,7 @@ void make_string_list( std::vector<std::string> const &list,
   strings = (char**)malloc( sizeof(char*) * length );
   for( unsigned int i = 0; i < length; i++ )
   {
-    strings[i] = (char*)malloc(sizeof(char) * list[i].length());
+    strings[i] = (char*)malloc( sizeof(char) * ( list[i].length() + 1 ) );
     std::strcpy( strings[i], list[i].c_str() );
   }
 }
-- 
2.43.0


From 42d967f90ded8eb54e434cb21559fa8beb61fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 16/87] fix: leave no stale entry in the C handle cache when
 memory runs out

---
 vital/bindings/c/helpers/c_utils.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vital/bindings/c/helpers/c_utils.h b/vital/bindings/c/helpers/c_utils.h
index ab88523..9cf9840 100644
--- a/vital/bindings/c/helpers/c_utils.h
+++ b/vital/bindings/c/helpers/c_utils.h
@@ -188,8 +188,17 @@ public:
     // don't bother bashing the existing entry
     if( cache_.count( sptr.get() ) == 0 )
     {
-      cache_[sptr.get()] = sptr;
+      // An entry must not stay behind when there is no memory for its counter
       ref_count_cache_[sptr.get()] = 1;
+      try
+      {
+        cache_[sptr.get()] = sptr;
+      }
+      catch( ... )
+      {
+        ref_count_cache_.erase( sptr.get() );
+        throw;
+      }
     }
     else
     {
-- 
2.43.0


From bd9b811ee5821ae5540e1ab7513ca891e63ee60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 17/87] fix: release the camera when parsing a KRTD file fails

---
 vital/io/camera_io.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/io/camera_io.cxx b/vital/io/camera_io.cxx
index bfbb322..e2398e0 100644
--- a/vital/io/camera_io.cxx
+++ b/vital/io/camera_io.cxx
@@ -70,9 +70,9 @@ read_krtd_file( path_t const& file_path )
   }
 
   // Read the file
-  simple_camera* cam = new simple_camera();
+  std::shared_ptr< simple_camera > cam( new simple_camera() );
   input_stream >> *cam;
-  return camera_sptr(cam);
+  return cam;
 }
 
 
-- 
2.43.0


From 0e35a605975ba31608961e0ee029249e4eb6d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 18/87] fix: survive failing allocations in the C API's own
 copies

---
 vital/bindings/c/camera_map.cxx      | 37 ++++++++++++++++++++++------
 vital/bindings/c/common.cxx          |  9 +++++++
 vital/bindings/c/error_handle.cxx    |  7 ++++--
 vital/bindings/c/helpers/c_utils.cxx | 26 +++++++++++++++----
 4 files changed, 64 insertions(+), 15 deletions(-)

diff --git a/vital/bindings/c/camera_map.cxx b/vital/bindings/c/camera_map.cxx
index df9cd55..9aa4213 100644
--- a/vital/bindings/c/camera_map.cxx
+++ b/vital/bindings/c/camera_map.cxx
@@ -35,6 +35,8 @@
 
 #include "camera_map.h"
 
+#include <new>
+
 #include <vital/types/camera_map.h>
 #include <vital/vital_foreach.h>
 
@@ -113,16 +115,35 @@ void vital_camera_map_get_map( vital_camera_map_t *cam_map,
     "C::camera_map::get_map", eh,
     kwiver::vital::camera_map::map_camera_t map_cams =
       kwiver::vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->cameras();
-    *length = map_cams.size();
-    *frame_numbers = (unsigned int*)malloc(sizeof(unsigned int) * *length);
-    *cameras = (vital_camera_t**)malloc(sizeof(vital_camera_t*) * *length);
+    unsigned int *frames = (unsigned int*)malloc(sizeof(unsigned int) * map_cams.size());
+    vital_camera_t **cams = (vital_camera_t**)malloc(sizeof(vital_camera_t*) * map_cams.size());
     size_t i=0;
-    VITAL_FOREACH( kwiver::vital::camera_map::map_camera_t::value_type const& p, map_cams )
+    try
+    {
+      if( ( ! frames || ! cams ) && ! map_cams.empty() )
+      {
+        throw std::bad_alloc();
+      }
+      VITAL_FOREACH( kwiver::vital::camera_map::map_camera_t::value_type const& p, map_cams )
+      {
+        frames[i] = static_cast< unsigned int >(p.first);
+        kwiver::vital_c::CAMERA_SPTR_CACHE.store( p.second );
+        cams[i] = reinterpret_cast<vital_camera_t*>( p.second.get() );
+        ++i;
+      }
+    }
+    catch( ... )
     {
-      (*frame_numbers)[i] = static_cast< unsigned int >(p.first);
-      kwiver::vital_c::CAMERA_SPTR_CACHE.store( p.second );
-      (*cameras)[i] = reinterpret_cast<vital_camera_t*>( p.second.get() );
-      ++i;
+      while( i > 0 )
+      {
+        kwiver::vital_c::CAMERA_SPTR_CACHE.erase( cams[--i] );
+      }
+      free( frames );
+      free( cams );
+      throw;
     }
+    *length = i;
+    *frame_numbers = frames;
+    *cameras = cams;
   );
 }
diff --git a/vital/bindings/c/common.cxx b/vital/bindings/c/common.cxx
index 66bd416..f6a2d8d 100644
--- a/vital/bindings/c/common.cxx
+++ b/vital/bindings/c/common.cxx
@@ -44,10 +44,19 @@ vital_string_t* vital_string_new(size_t length, char const* s)
 {
   vital_string_t* n =
     (vital_string_t*)malloc(sizeof(vital_string_t));
+  if( ! n )
+  {
+    return 0;
+  }
   n->length = length;
   // When length 0, this is just a 1 character string that is just the null
   // byte.
   n->str = (char*)malloc(sizeof(char) * (length+1));
+  if( ! n->str )
+  {
+    free( n );
+    return 0;
+  }
   n->str[length] = 0;
 
   if( length && s )
diff --git a/vital/bindings/c/error_handle.cxx b/vital/bindings/c/error_handle.cxx
index 00a12cd..49abfe4 100644
--- a/vital/bindings/c/error_handle.cxx
+++ b/vital/bindings/c/error_handle.cxx
@@ -42,8 +42,11 @@
 vital_error_handle_t* vital_eh_new()
 {
   vital_error_handle_t* eh = (vital_error_handle_t*)std::malloc(sizeof(vital_error_handle_t));
-  eh->error_code = 0;
-  eh->message = (char*)0;
+  if( eh )
+  {
+    eh->error_code = 0;
+    eh->message = (char*)0;
+  }
   return eh;
 }
 
diff --git a/vital/bindings/c/helpers/c_utils.cxx b/vital/bindings/c/helpers/c_utils.cxx
index f5349cd..119037c 100644
--- a/vital/bindings/c/helpers/c_utils.cxx
+++ b/vital/bindings/c/helpers/c_utils.cxx
@@ -35,6 +35,8 @@
 
 #include "c_utils.h"
 
+#include <new>
+
 namespace kwiver {
 namespace vital_c {
 
@@ -59,13 +61,27 @@ void populate_error_handle( vital_error_handle_t *eh, int error_code,
 void make_string_list( std::vector<std::string> const &list,
                        unsigned int &length, char ** &strings )
 {
-  length = static_cast< unsigned int >(list.size());
-  strings = (char**)malloc( sizeof(char*) * length );
-  for( unsigned int i = 0; i < length; i++ )
+  char **new_strings = (char**)malloc( sizeof(char*) * list.size() );
+  if( ! new_strings && ! list.empty() )
   {
-    strings[i] = (char*)malloc( sizeof(char) * ( list[i].length() + 1 ) );
-    std::strcpy( strings[i], list[i].c_str() );
+    throw std::bad_alloc();
   }
+  for( size_t i = 0; i < list.size(); i++ )
+  {
+    new_strings[i] = (char*)malloc( sizeof(char) * ( list[i].length() + 1 ) );
+    if( ! new_strings[i] )
+    {
+      while( i > 0 )
+      {
+        free( new_strings[--i] );
+      }
+      free( new_strings );
+      throw std::bad_alloc();
+    }
+    std::strcpy( new_strings[i], list[i].c_str() );
+  }
+  length = static_cast< unsigned int >(list.size());
+  strings = new_strings;
 }
 
 
-- 
2.43.0


From a338ef8d20ebcd694173bd85134ceea935e22b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 19/87] fix: return the result of checking an algorithm
 configuration through the C API

---
 vital/bindings/c/algorithm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 4b49e12..a9faf6f 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -122,7 +122,7 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
 {
   STANDARD_CATCH(
     "C::algorithm::check_impl_configuration", eh,
-    kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
+    return kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
       kwiver::vital_c::CONFIG_BLOCK_SPTR_CACHE.get( cb )
     );
   );
-- 
2.43.0


From c54548d2dc559bc07b55108a5126b33c75752692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 20/87] fix: register an algorithm with the C API completely or
 not at all

---
 vital/bindings/c/helpers/algorithm.h | 36 +++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/vital/bindings/c/helpers/algorithm.h b/vital/bindings/c/helpers/algorithm.h
index 09d5d85..7378d69 100644
--- a/vital/bindings/c/helpers/algorithm.h
+++ b/vital/bindings/c/helpers/algorithm.h
@@ -38,6 +38,7 @@
 #ifndef VITAL_C_HELPERS_ALGORITHM_H_
 #define VITAL_C_HELPERS_ALGORITHM_H_
 
+#include <memory>
 #include <string>
 
 #include <vital/bindings/c/helpers/c_utils.h>
@@ -56,6 +57,25 @@ namespace vital_c {
                            vital_algorithm_t > ALGORITHM_SPTR_CACHE;
 
 
+/// Store an algorithm in the general and in its type specific cache, or in none
+template < typename T >
+void
+store_algorithm( SharedPointerCache< T, vital_algorithm_t > &type_cache,
+                 std::shared_ptr< T > const &algo_sptr )
+{
+  ALGORITHM_SPTR_CACHE.store( algo_sptr );
+  try
+  {
+    type_cache.store( algo_sptr );
+  }
+  catch( ... )
+  {
+    ALGORITHM_SPTR_CACHE.erase( algo_sptr.get() );
+    throw;
+  }
+}
+
+
 class invalid_algorithm_pointer
   : public kwiver::vital::vital_core_base_exception
 {
@@ -89,8 +109,8 @@ public:
         kwiver::vital::algo::type::create( impl_name );                 \
       if( algo_sptr )                                                   \
       {                                                                 \
-        kwiver::vital_c::ALGORITHM_SPTR_CACHE.store( algo_sptr );       \
-        kwiver::vital_c::ALGORITHM_##type##_SPTR_CACHE.store( algo_sptr ); \
+        kwiver::vital_c::store_algorithm(                               \
+          kwiver::vital_c::ALGORITHM_##type##_SPTR_CACHE, algo_sptr );  \
         return reinterpret_cast<vital_algorithm_t*>(algo_sptr.get());   \
       }                                                                 \
     );                                                                  \
@@ -165,18 +185,18 @@ public:
         kwiver::vital_c::CONFIG_BLOCK_SPTR_CACHE.get( cb ),             \
         algo_sptr                                                       \
       );                                                                \
-      /* If underlying pointer changed, destroy the old instance and register \
-       * the new one.                                                   \
+      /* If underlying pointer changed, register the new instance and destroy \
+       * the old one.                                                   \
        */                                                               \
       if( orig_ptr != algo_sptr.get() )                                 \
       {                                                                 \
+        kwiver::vital_c::store_algorithm(                               \
+          kwiver::vital_c::ALGORITHM_##type##_SPTR_CACHE, algo_sptr );  \
         if( orig_ptr )                                                  \
         {                                                               \
           kwiver::vital_c::ALGORITHM_SPTR_CACHE.erase( orig_ptr );      \
           kwiver::vital_c::ALGORITHM_##type##_SPTR_CACHE.erase( orig_ptr ); \
         }                                                               \
-        kwiver::vital_c::ALGORITHM_SPTR_CACHE.store( algo_sptr );       \
-        kwiver::vital_c::ALGORITHM_##type##_SPTR_CACHE.store( algo_sptr ); \
         *algo = reinterpret_cast<vital_algorithm_t*>( algo_sptr.get() ); \
       }                                                                 \
     );                                                                  \
@@ -212,8 +232,8 @@ public:
             kwiver::vital_c::ALGORITHM_##type##_SPTR_CACHE.get( algo )->clone()); \
         if( new_sptr )                                                  \
         {                                                               \
-          kwiver::vital_c::ALGORITHM_SPTR_CACHE.store( new_sptr );      \
-          kwiver::vital_c::ALGORITHM_##type##_SPTR_CACHE.store( new_sptr ); \
+          kwiver::vital_c::store_algorithm(                               \
+            kwiver::vital_c::ALGORITHM_##type##_SPTR_CACHE, new_sptr ); \
           return reinterpret_cast<vital_algorithm_t*>(new_sptr.get());  \
         }                                                               \
         else                                                            \
-- 
2.43.0


From d1b709d646c513d41774b30e9c4aafdc9a3c0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 21/87] fix: read back configuration keys of one or two
 characters

Such keys can be set and are written to configuration files, but the
file could not be parsed again, since a word needed three characters.
---
 vital/config/config_parser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index cbcae41..3b2a2dd 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -545,7 +545,7 @@ public:
     // Words are LHS tokens, which start with a letter, and can not end with a ':'
     // A *word* can contain these symbols "- _ : . /"
     // An expression holds the result of its last match, so each call needs its own.
-    static kwiversys::RegularExpression const word_pattern( "^[a-zA-Z][-a-zA-Z0-9.:/_]+[-a-zA-Z0-9./_]" );
+    static kwiversys::RegularExpression const word_pattern( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
     static kwiversys::RegularExpression const flag_pattern( "^\\[[a-zA-Z,]+\\]" );
     kwiversys::RegularExpression re_word( word_pattern );
     kwiversys::RegularExpression re_flag( flag_pattern );
-- 
2.43.0


From a3a6580197895e2162f0eaabc1c526927b33d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 22/87] fix: do not leak the macro types of a config parser
 when memory runs out

---
 vital/config/config_parser.cxx  | 3 ++-
 vital/config/token_expander.cxx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 3b2a2dd..5c97c88 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -134,13 +134,14 @@ public:
     : m_line_number( 0 ),
       m_file_count( 0 ),
       m_parse_error( false ),
-      m_symtab( new kwiver::vital::token_type_symtab( "LOCAL" ) ),
+      m_symtab( 0 ),
       m_config_block( kwiver::vital::config_block::empty_config() ),
       m_logger( kwiver::vital::get_logger( "vital.config_parser" ) )
   {
     m_token_expander.add_token_type( new kwiver::vital::token_type_env() );
     m_token_expander.add_token_type( new kwiver::vital::token_type_sysenv() );
     m_token_expander.add_token_type( new kwiver::vital::token_type_config( m_config_block.get() ) );
+    m_symtab = new kwiver::vital::token_type_symtab( "LOCAL" ); // owned by the token expander
     m_token_expander.add_token_type( m_symtab );
   }
 
diff --git a/vital/config/token_expander.cxx b/vital/config/token_expander.cxx
index a364610..88cc7dc 100644
--- a/vital/config/token_expander.cxx
+++ b/vital/config/token_expander.cxx
@@ -62,8 +62,9 @@ bool
 token_expander::
 add_token_type (kwiver::vital::token_type * tt)
 {
+  const std::shared_ptr< kwiver::vital::token_type > owned( tt ); // even if the following fails
   const std::string name( tt->token_type_name() );
-  m_typeList[name] = std::shared_ptr< kwiver::vital::token_type > ( tt );
+  m_typeList[name] = owned;
 
   return true;
 }
-- 
2.43.0


From 651624e3ecbb3005d2bf0cd206d54ae1a15b957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 23/87] fix: let no exception escape when copying image data
 through the C API

---
 vital/bindings/c/image.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vital/bindings/c/image.cxx b/vital/bindings/c/image.cxx
index dce4c51..148e0f3 100644
--- a/vital/bindings/c/image.cxx
+++ b/vital/bindings/c/image.cxx
@@ -71,7 +71,15 @@ vital_image_t* vital_image_new_from_data( unsigned char const *first_pixel,
                                           size_t width, size_t height, size_t depth,
                                           int32_t w_step, int32_t h_step, int32_t d_step )
 {
-  kwiver::vital::image* new_image = new kwiver::vital::image( width, height, depth );
+  kwiver::vital::image* new_image = 0;
+  STANDARD_CATCH(
+    "C::image:new_from_data", 0,
+    new_image = new kwiver::vital::image( width, height, depth );
+  );
+  if ( ! new_image )
+  {
+    return 0;
+  }
   for ( unsigned int d = 0; d < depth; ++d )
   {
     // This is a little crazy, but it is used to convert BGR to RGB
-- 
2.43.0


From cef1d2169692769f3040b352bd360e5700b8d900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 24/87] fix: report errors when writing camera, landmark and
 track files

---
 vital/io/camera_io.cxx       | 5 +++++
 vital/io/landmark_map_io.cxx | 5 +++++
 vital/io/track_set_io.cxx    | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/vital/io/camera_io.cxx b/vital/io/camera_io.cxx
index e2398e0..958d777 100644
--- a/vital/io/camera_io.cxx
+++ b/vital/io/camera_io.cxx
@@ -119,6 +119,11 @@ write_krtd_file( camera const&  cam,
   std::ofstream ofile( file_path.c_str() );
   ofile << cam;
   ofile.close();
+
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not write the file." );
+  }
 }
 
 
diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 4f8501e..a5153f7 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -119,6 +119,11 @@ write_ply_file( landmark_map_sptr const&  landmarks,
           << " " << p.first << " " << p.second->observations() << "\n";
   }
   ofile.close();
+
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not write the file." );
+  }
 } // write_ply_file
 
 
diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 672bbc9..df45faf 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -150,6 +150,11 @@ write_track_file( track_set_sptr const& tracks,
     }
   }
   ofile.close();
+
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not write the file." );
+  }
 } // write_track_file
 
 } } // end namespace
-- 
2.43.0


From dd0e93033ee2924bd589deffeae5dcb1ed7f3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 25/87] fix: report malformed lines and errors while reading
 track files

---
 vital/io/track_set_io.cxx | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index df45faf..e86e4fb 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -83,7 +83,18 @@ read_track_file( path_t const& file_path )
     frame_id_t fid;
     feature_d feat;
     std::stringstream ss( line );
-    ss >> tid >> fid >> feat;
+    bool valid = false;
+    try
+    {
+      valid = static_cast< bool >( ss >> tid >> fid >> feat );
+    }
+    catch ( invalid_data const& )
+    {
+    }
+    if ( ! valid )
+    {
+      throw file_not_read_exception( file_path, "Invalid track state: " + line );
+    }
 
     track_sptr t;
     std::map< track_id_t, track_sptr >::const_iterator it = track_map.find( tid );
@@ -102,6 +113,11 @@ read_track_file( path_t const& file_path )
                                    descriptor_sptr() ) );
   }
 
+  if ( input_stream.bad() )
+  {
+    throw file_not_read_exception( file_path, "Error while reading the file." );
+  }
+
   return track_set_sptr( new simple_track_set( tracks ) );
 } // read_track_file
 
-- 
2.43.0


From b3c1431928481cfab5762e051b427b29e5793d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 26/87] fix: read the distortion coefficients of a camera

---
 vital/io/eigen_io.h | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/vital/io/eigen_io.h b/vital/io/eigen_io.h
index b90296c..b3fa568 100644
--- a/vital/io/eigen_io.h
+++ b/vital/io/eigen_io.h
@@ -39,6 +39,8 @@
 
 #include <iostream>
 #include <cstring>
+#include <sstream>
+#include <string>
 
 #include <Eigen/Core>
 
@@ -75,6 +77,45 @@ operator>>( std::istream& s, Matrix< T, M, N >& m )
   return s;
 }
 
+
+/// input stream operator for an Eigen column vector of dynamic size
+/**
+ * Reads all numbers on the next line that is not blank.  The vector is
+ * resized to the number of values found; it is empty if there is no such line.
+ *
+ * \throws vital::invalid_data
+ *    Throws an invalid data exception when the data being read is either not
+ *    in the valid form or format, e.g. read a character where a double should
+ *    be..
+ *
+ * \param s an input stream
+ * \param v a vector to stream into
+ */
+template < typename T >
+std::istream&
+operator>>( std::istream& s, Matrix< T, Dynamic, 1 >& v )
+{
+  v.resize( 0 );
+  std::string line;
+  if ( s >> std::ws )
+  {
+    std::getline( s, line );
+  }
+  std::istringstream values( line );
+  T value;
+  while ( values >> value )
+  {
+    v.conservativeResize( v.rows() + 1 );
+    v[v.rows() - 1] = value;
+  }
+  if ( s.bad() || ! values.eof() )
+  {
+    throw kwiver::vital::invalid_data( "Encountered a non-numeric value while "
+                                "parsing an Eigen::Matrix" );
+  }
+  return s;
+}
+
 } // end namespace Eigen
 
 #endif // VITAL_EIGEN_IO_H_
-- 
2.43.0


From d95dc0b563635c81b6a47bbc1be9863dfb1ce056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 27/87] fix: add no null camera to the camera map for a missing
 file

---
 vital/io/camera_map_io.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/io/camera_map_io.cxx b/vital/io/camera_map_io.cxx
index c64d91b..503a4cd 100644
--- a/vital/io/camera_map_io.cxx
+++ b/vital/io/camera_map_io.cxx
@@ -57,7 +57,8 @@ read_krtd_files( std::vector< path_t > const& img_files, path_t const& dir )
   {
     try
     {
-      cameras[fid] = read_krtd_file( img_files[fid], dir );
+      camera_sptr const cam = read_krtd_file( img_files[fid], dir );
+      cameras[fid] = cam;
     }
     catch ( file_not_found_exception )
     {
-- 
2.43.0


From 4d114499cb4b7fc4917248cb65842addc19f981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 28/87] fix: read all landmarks of a PLY file and nothing else

---
 vital/io/landmark_map_io.cxx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index a5153f7..19e4495 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -202,7 +202,9 @@ read_ply_file( path_t const& file_path )
   std::string line;
 
   unsigned int num_verts = 0, vert_count = 0;
-  while ( std::getline( ifile, line ) )
+  // exit if we have read the expected number of points
+  while ( ! ( parsed_header && vert_count >= num_verts ) &&
+          std::getline( ifile, line ) )
   {
     std::vector<std::string> tokens = get_tokens(line);
     if ( line.empty() || tokens.empty() )
@@ -312,12 +314,11 @@ read_ply_file( path_t const& file_path )
     lm->set_color( color );
     lm->set_observations( observations );
     landmarks[id] = lm;
+  }
 
-    // exit if we have read the expected number of points
-    if ( vert_count > num_verts )
-    {
-      break;
-    }
+  if ( ifile.bad() || ! parsed_header || vert_count < num_verts )
+  {
+    throw file_not_read_exception( file_path, "File is incomplete or not a PLY file." );
   }
 
   ifile.close();
-- 
2.43.0


From 70bf092f192e4ed33bd9d44a2246a87762d68598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 29/87] fix: report every failure when copying a file and keep
 a file copied onto itself

---
 vital/kwiversys/SystemTools.cxx | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index da34eb9..fe3d9e9 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2391,7 +2391,10 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
 
   if(SystemTools::FileIsDirectory(source))
     {
-    SystemTools::MakeDirectory(destination);
+    if(!SystemTools::MakeDirectory(destination))
+      {
+      return false;
+      }
     }
   else
     {
@@ -2434,6 +2437,14 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
       return false;
       }
 
+    // Nothing to do, and nothing to remove, if the file in the destination
+    // directory is the source itself.
+    if(!destination_dir.empty() &&
+       SystemTools::SameFile(source, real_destination))
+      {
+      return true;
+      }
+
     // try and remove the destination file so that read only destination files
     // can be written to.
     // If the remove fails continue so that files in read only directories
@@ -2476,10 +2487,13 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
     // the check below.
     fout.flush();
 
+    // An error while reading leaves a truncated copy behind.
+    bool readError = fin.bad();
+
     fin.close();
     fout.close();
 
-    if(!fout)
+    if(!fout || readError)
       {
       return false;
       }
-- 
2.43.0


From a791dc14302587a4b7c24626fbe257a9015c35af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 30/87] fix: report an unreadable source when copying a
 directory

---
 vital/kwiversys/SystemTools.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index fe3d9e9..f2d9378 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2531,11 +2531,14 @@ bool SystemTools::CopyADirectory(const std::string& source, const std::string& d
 {
   Directory dir;
 #ifdef _WIN32
-  dir.Load(Encoding::ToNarrow(
-             SystemTools::ConvertToWindowsExtendedPath(source)));
+  if ( !dir.Load(Encoding::ToNarrow(
+             SystemTools::ConvertToWindowsExtendedPath(source))) )
 #else
-  dir.Load(source);
+  if ( !dir.Load(source) )
 #endif
+    {
+    return false;
+    }
   size_t fileNum;
   if ( !SystemTools::MakeDirectory(destination) )
     {
-- 
2.43.0


From b4bd1c5e5848be6e7154c4b872891eb72364faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 31/87] fix: do not take a partial directory listing for a
 complete one

---
 vital/kwiversys/Directory.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vital/kwiversys/Directory.cxx b/vital/kwiversys/Directory.cxx
index c549792..56b0fd2 100644
--- a/vital/kwiversys/Directory.cxx
+++ b/vital/kwiversys/Directory.cxx
@@ -199,6 +199,7 @@ unsigned long Directory::GetNumberOfFilesInDirectory(const std::string& name)
 
 #include <sys/types.h>
 #include <dirent.h>
+#include <errno.h>
 
 // PGI with glibc has trouble with dirent and large file support:
 //  http://www.pgroup.com/userforum/viewtopic.php?
@@ -228,9 +229,18 @@ bool Directory::Load(const std::string& name)
     return 0;
     }
 
+  // The end of the directory and an error differ only in errno.
+  errno = 0;
   for (kwsys_dirent* d = readdir(dir); d; d = readdir(dir) )
     {
     this->Internal->Files.push_back(d->d_name);
+    errno = 0;
+    }
+  if (errno != 0)
+    {
+    closedir(dir);
+    this->Clear();
+    return 0;
     }
   this->Internal->Path = name;
   closedir(dir);
@@ -247,10 +257,15 @@ unsigned long Directory::GetNumberOfFilesInDirectory(const std::string& name)
     }
 
   unsigned long count = 0;
+  errno = 0;
   for (kwsys_dirent* d = readdir(dir); d; d = readdir(dir) )
     {
     count++;
     }
+  if (errno != 0)
+    {
+    count = 0;
+    }
   closedir(dir);
   return count;
 }
-- 
2.43.0


From a9579f79711697f334f3a565865a2243c9077282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 32/87] fix: never follow a symbolic link when removing a
 directory

---
 vital/kwiversys/SystemTools.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index f2d9378..673532b 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2845,8 +2845,15 @@ bool SystemTools::RemoveADirectory(const std::string& source)
       std::string fullPath = source;
       fullPath += "/";
       fullPath += dir.GetFile(static_cast<unsigned long>(fileNum));
-      if(SystemTools::FileIsDirectory(fullPath) &&
-        !SystemTools::FileIsSymlink(fullPath))
+#if defined(_WIN32) && !defined(__CYGWIN__)
+      bool subdir = SystemTools::FileIsDirectory(fullPath) &&
+        !SystemTools::FileIsSymlink(fullPath);
+#else
+      // A single query, so that a link is never followed out of the tree.
+      struct stat fs;
+      bool subdir = lstat(fullPath.c_str(), &fs) == 0 && S_ISDIR(fs.st_mode);
+#endif
+      if(subdir)
         {
         if (!SystemTools::RemoveADirectory(fullPath))
           {
-- 
2.43.0


From f0a33c2b3fc90da51210904867fa242a8752406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 33/87] fix: do not report a dangling link as a created
 directory

---
 vital/kwiversys/SystemTools.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 673532b..1befac9 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -766,6 +766,8 @@ bool SystemTools::MakeDirectory(const std::string& path)
       {
       return false;
       }
+    // Something exists, but it may not be a directory.
+    return SystemTools::FileIsDirectory(path);
     }
   return true;
 }
-- 
2.43.0


From 81e8fc8c5fd95be4dea8ba16cb7203d4119c4014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 34/87] fix: keep carriage returns within lines and honour the
 size limit exactly

---
 vital/kwiversys/SystemTools.cxx | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 1befac9..fd4e49f 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4678,6 +4678,7 @@ bool SystemTools::GetLineFromStream(std::istream& is,
   char buffer[bufferSize];
   bool haveData = false;
   bool haveNewline = false;
+  bool truncated = false;
 
   // Start with an empty line.
   line = "";
@@ -4715,18 +4716,13 @@ bool SystemTools::GetLineFromStream(std::istream& is,
       haveNewline = true;
       }
 
-    // Avoid storing a carriage return character.
-    if(length > 0 && buffer[length-1] == '\r')
-      {
-      buffer[length-1] = 0;
-      }
-
     // if we read too much then truncate the buffer
     if (leftToRead > 0)
       {
       if (static_cast<long>(length) > leftToRead)
         {
-        buffer[leftToRead-1] = 0;
+        truncated = true;
+        buffer[leftToRead] = 0;
         leftToRead = 0;
         }
       else
@@ -4739,6 +4735,14 @@ bool SystemTools::GetLineFromStream(std::istream& is,
     line.append(buffer);
     }
 
+  // Avoid storing a carriage return character at the end of the line.  One
+  // that merely ends the part of a long line read at once belongs to it.
+  if(!truncated && (haveNewline || is.eof()) &&
+     !line.empty() && line[line.size()-1] == '\r')
+    {
+    line.erase(line.size()-1);
+    }
+
   // Return the results.
   if(has_newline)
     {
-- 
2.43.0


From a5253f72b89ee0bf225f654e2bf5b1182b838c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 35/87] fix: restore the program's own SIGINT and SIGTERM
 actions after child processes end

---
 vital/kwiversys/ProcessUNIX.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 6d9b109..07eb61a 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2883,7 +2883,7 @@ static int kwsysProcessesAdd(kwsysProcess* cp)
     sigemptyset(&newSigAction.sa_mask);
     sigaddset(&newSigAction.sa_mask, SIGINT);
     while((sigaction(SIGTERM, &newSigAction,
-                     &kwsysProcessesOldSigIntAction) < 0) &&
+                     &kwsysProcessesOldSigTermAction) < 0) &&
           (errno == EINTR));
     }
   }
-- 
2.43.0


From 9f9ac8fa9792e1ee4565e793443d8f56f3a1c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 36/87] fix: do not leak a command that cannot be added to a
 process

---
 vital/kwiversys/ProcessUNIX.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 07eb61a..135be2c 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -443,6 +443,7 @@ int kwsysProcess_AddCommand(kwsysProcess* cp, char const* const* command)
        !newCommands[cp->NumberOfCommands][0])
       {
       /* Out of memory or no command parsed.  */
+      free(newCommands[cp->NumberOfCommands]);
       free(newCommands);
       return 0;
       }
@@ -479,6 +480,7 @@ int kwsysProcess_AddCommand(kwsysProcess* cp, char const* const* command)
         {
         free(newCommands[cp->NumberOfCommands][i-1]);
         }
+      free(newCommands[cp->NumberOfCommands]);
       free(newCommands);
       return 0;
       }
-- 
2.43.0


From 3145092c3319812de5cb3be7cf5873a4802a62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 37/87] fix: do not give up on a child process when the wait
 for its group is interrupted

---
 vital/kwiversys/ProcessUNIX.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 135be2c..47e2821 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1973,7 +1973,8 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
   /* Make sure the child is in the process group before we proceed.  This
      avoids race conditions with calls to the kill function that we make for
      signalling process groups.  */
-  while((readRes = read(pgidPipe[0], &tmp, 1)) > 0);
+  while((readRes = read(pgidPipe[0], &tmp, 1)) > 0 ||
+        (readRes < 0 && errno == EINTR));
   if(readRes < 0)
     {
     sigprocmask(SIG_SETMASK, &old_mask, 0);
-- 
2.43.0


From e11e34dcd1623a265f59b5393cdd68164fe52f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 38/87] fix: do not signal every process after a failed fork

---
 vital/kwiversys/ProcessUNIX.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 47e2821..98e4b8b 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1891,6 +1891,8 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
 #endif
   if(cp->ForkPIDs[prIndex] < 0)
     {
+    /* There is no process to be signalled or waited for.  */
+    cp->ForkPIDs[prIndex] = 0;
     sigprocmask(SIG_SETMASK, &old_mask, 0);
     kwsysProcessCleanupDescriptor(&si->ErrorPipe[0]);
     kwsysProcessCleanupDescriptor(&si->ErrorPipe[1]);
-- 
2.43.0


From f3f2e18b5c7ab7a5eed1aa3a3a4fc476c290fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 39/87] fix: do not signal a process that was already killed
 and waited for

---
 vital/kwiversys/ProcessUNIX.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 98e4b8b..d8cc780 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1577,6 +1577,9 @@ void kwsysProcess_Kill(kwsysProcess* cp)
       /* Reap the child.  Keep trying until the call is not
          interrupted.  */
       while((waitpid(cp->ForkPIDs[i], &status, 0) < 0) && (errno == EINTR));
+
+      /* The PID is no longer valid and must not be signalled again.  */
+      cp->ForkPIDs[i] = 0;
       }
     }
 
@@ -1724,6 +1727,9 @@ static void kwsysProcessCleanup(kwsysProcess* cp, int error)
              interrupted.  */
           while((waitpid(cp->ForkPIDs[i], &status, 0) < 0) &&
                 (errno == EINTR));
+
+          /* The PID is no longer valid and must not be signalled again.  */
+          cp->ForkPIDs[i] = 0;
           }
         }
       }
-- 
2.43.0


From 36d06b01f652f01b8cf9fa5e93e16054a72f79a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 40/87] fix: do not hang when interrupted while killing child
 processes

---
 vital/kwiversys/ProcessUNIX.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index d8cc780..b220d20 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1545,6 +1545,7 @@ void kwsysProcess_Interrupt(kwsysProcess* cp)
 void kwsysProcess_Kill(kwsysProcess* cp)
 {
   int i;
+  sigset_t mask, old_mask;
 
   /* Make sure we are executing a process.  */
   if(!cp || cp->State != kwsysProcess_State_Executing)
@@ -1564,6 +1565,14 @@ void kwsysProcess_Kill(kwsysProcess* cp)
   kwsysProcessClosePipes(cp);
 #endif
 
+  /* Block SIGINT / SIGTERM while we kill the children.  Our signal handler
+     waits for all children and would wait forever for those that have been
+     suspended but not killed yet.  */
+  sigemptyset(&mask);
+  sigaddset(&mask, SIGINT);
+  sigaddset(&mask, SIGTERM);
+  sigprocmask(SIG_BLOCK, &mask, &old_mask);
+
   /* Kill the children.  */
   cp->Killed = 1;
   for(i=0; i < cp->NumberOfCommands; ++i)
@@ -1583,6 +1592,9 @@ void kwsysProcess_Kill(kwsysProcess* cp)
       }
     }
 
+  /* Re-enable signals.  */
+  sigprocmask(SIG_SETMASK, &old_mask, 0);
+
 #if defined(__APPLE__)
   /* Close all the pipe read ends.  Do this after killing the
      children because OS X has problems closing pipe read ends whose
@@ -1712,10 +1724,17 @@ static void kwsysProcessCleanup(kwsysProcess* cp, int error)
     /* Set the error state.  */
     cp->State = kwsysProcess_State_Error;
 
-    /* Kill any children already started.  */
+    /* Kill any children already started.  Block SIGINT / SIGTERM while we do,
+       because our signal handler waits for all children and would wait
+       forever for those that have not been killed yet.  */
     if(cp->ForkPIDs)
       {
       int status;
+      sigset_t mask, old_mask;
+      sigemptyset(&mask);
+      sigaddset(&mask, SIGINT);
+      sigaddset(&mask, SIGTERM);
+      sigprocmask(SIG_BLOCK, &mask, &old_mask);
       for(i=0; i < cp->NumberOfCommands; ++i)
         {
         if(cp->ForkPIDs[i])
@@ -1732,6 +1751,7 @@ static void kwsysProcessCleanup(kwsysProcess* cp, int error)
           cp->ForkPIDs[i] = 0;
           }
         }
+      sigprocmask(SIG_SETMASK, &old_mask, 0);
       }
 
     /* Restore the working directory.  */
-- 
2.43.0


From 7961ecc033ddcfd01d36a5d007a9ccde42609389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 41/87] fix: do not leak a detached process that is deleted
 after it was killed

---
 vital/kwiversys/ProcessUNIX.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index b220d20..e18ac50 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -353,7 +353,9 @@ void kwsysProcess_Delete(kwsysProcess* cp)
       {
       kwsysProcess_Disown(cp);
       }
-    else
+
+    /* A detached child that was killed or timed out cannot be disowned.  */
+    if(cp->State == kwsysProcess_State_Executing)
       {
       kwsysProcess_WaitForExit(cp, 0);
       }
-- 
2.43.0


From ca1181d0ab44c486b8f6c680fb37b6993681c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 42/87] fix: do not mistake a detached child's error message
 for its pid

---
 vital/kwiversys/ProcessUNIX.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index e18ac50..2db8bcb 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2578,14 +2578,21 @@ static pid_t kwsysProcessFork(kwsysProcess* cp,
       pid_t child_pid = fork();
       if(child_pid == 0)
         {
-        /* This is the real child process.  There is nothing to do here.  */
+        /* This is the real child process.  Use the error pipe to report the
+           pid to the real parent, before any error message.  */
+        child_pid = getpid();
+        while((write(si->ErrorPipe[1], &child_pid, sizeof(child_pid)) < 0) &&
+              (errno == EINTR));
         return 0;
         }
       else
         {
-        /* Use the error pipe to report the pid to the real parent.  */
-        while((write(si->ErrorPipe[1], &child_pid, sizeof(child_pid)) < 0) &&
-              (errno == EINTR));
+        /* Report a failure to create the real child.  */
+        if(child_pid < 0)
+          {
+          while((write(si->ErrorPipe[1], &child_pid, sizeof(child_pid)) < 0) &&
+                (errno == EINTR));
+          }
 
         /* Exit without cleanup.  The parent holds all resources.  */
         kwsysProcessExit();
@@ -2594,10 +2601,10 @@ static pid_t kwsysProcessFork(kwsysProcess* cp,
       }
     else
       {
-      /* This is the original parent process.  The intermediate
-         process will use the error pipe to report the pid of the
-         detached child.  */
-      pid_t child_pid;
+      /* This is the original parent process.  The detached child will
+         use the error pipe to report its pid.  The intermediate process
+         will report -1 if it cannot create the child.  */
+      pid_t child_pid = -1;
       int status;
       while((read(si->ErrorPipe[0], &child_pid, sizeof(child_pid)) < 0) &&
             (errno == EINTR));
-- 
2.43.0


From 086ca7360d3af7083544d7459ebf2b9cddd194ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 43/87] fix: terminate the error message received from a child
 process

---
 vital/kwiversys/ProcessUNIX.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 2db8bcb..98acb32 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2048,6 +2048,7 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
   if(total > 0)
     {
     /* The child failed to execute the process.  */
+    cp->ErrorMessage[total] = 0;
     return 0;
     }
   }
-- 
2.43.0


From beec309c97486f40c2f9370aa1f71daad4c93e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 44/87] fix: do not leak the process ids of a process that
 could not be started

---
 vital/kwiversys/ProcessUNIX.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 98acb32..2505520 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -152,6 +152,7 @@ typedef struct kwsysProcessCreateInformation_s
 
 /*--------------------------------------------------------------------------*/
 static void kwsysProcessVolatileFree(volatile void* p);
+static void kwsysProcessVolatileFree(volatile void* p);
 static int kwsysProcessInitialize(kwsysProcess* cp);
 static void kwsysProcessCleanup(kwsysProcess* cp, int error);
 static void kwsysProcessCleanupDescriptor(int* pfd);
@@ -371,6 +372,10 @@ void kwsysProcess_Delete(kwsysProcess* cp)
     {
     free(cp->CommandExitCodes);
     }
+  if(cp->ForkPIDs)
+    {
+    kwsysProcessVolatileFree(cp->ForkPIDs);
+    }
   free(cp);
 }
 
-- 
2.43.0


From c8f0821e2ee718ac905332ca3e4865bf85495384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 45/87] fix: do not leak the output file of a process that
 could not be started

---
 vital/kwiversys/ProcessUNIX.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 2505520..de19a2e 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2137,6 +2137,7 @@ static int kwsysProcessSetupOutputPipeFile(int* p, const char* name)
   /* Set close-on-exec flag on the pipe's end.  */
   if(fcntl(fout, F_SETFD, FD_CLOEXEC) < 0)
     {
+    close(fout);
     return 0;
     }
 
-- 
2.43.0


From 842ea80ef7778cd6e58caa5d2524c0f1d7ca81a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 46/87] fix: terminate the module path in the buffer it was
 read into

get_module_path() wrote the terminator into the still empty result string
instead of the buffer, so it returned the file name or what the stack held
behind it, and wrote outside the string.
---
 vital/util/get_paths.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/get_paths.cxx b/vital/util/get_paths.cxx
index 70d44f9..77e8cd0 100644
--- a/vital/util/get_paths.cxx
+++ b/vital/util/get_paths.cxx
@@ -79,7 +79,7 @@ get_module_path()
     char ppath[4096];
     int length(0);
     wai_getModulePath( ppath, sizeof ppath, &length );
-    path[length] = '\0';
+    ppath[length] = '\0';
 
     // convert to string
     path = ppath;
-- 
2.43.0


From c94ed74d457714b5731d2dde0646e3f25e9e40d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 47/87] fix: allow threads to ask for the executable and module
 path at once

The cached path was assigned without synchronization.
---
 vital/util/get_paths.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vital/util/get_paths.cxx b/vital/util/get_paths.cxx
index 77e8cd0..a6699c6 100644
--- a/vital/util/get_paths.cxx
+++ b/vital/util/get_paths.cxx
@@ -35,6 +35,8 @@
 
 #include <vital/util/get_paths.h>
 
+#include <mutex>
+
 namespace kwiver {
 namespace vital{
 
@@ -51,8 +53,11 @@ namespace vital{
 std::string
 get_executable_path()
 {
+  static std::mutex lock;  // serialize access to cached path
   static std::string path; // cached path
 
+  std::lock_guard< std::mutex > guard( lock );
+
   if ( path.empty() )
   {
     char ppath[4096];
@@ -72,8 +77,11 @@ get_executable_path()
 std::string
 get_module_path()
 {
+  static std::mutex lock;  // serialize access to cached path
   static std::string path; // cached path
 
+  std::lock_guard< std::mutex > guard( lock );
+
   if ( path.empty() )
   {
     char ppath[4096];
-- 
2.43.0


From 38d30fda97f69438b312d0a31ff96de3f27a6953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 48/87] fix: find the module path when it contains spaces

---
 vital/util/whereami.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/whereami.c b/vital/util/whereami.c
index 01b03cd..efefd4f 100644
--- a/vital/util/whereami.c
+++ b/vital/util/whereami.c
@@ -250,7 +250,7 @@ int WAI_PREFIX(getModulePath)(char* out, int capacity, int* dirname_length)
         break;
       }
 
-      if (sscanf(buffer, "%" PRIx64 "-%" PRIx64 " %s %" PRIx64 " %x:%x %u %s\n",
+      if (sscanf(buffer, "%" PRIx64 "-%" PRIx64 " %s %" PRIx64 " %x:%x %u %[^\n]\n",
                  &low, &high, perms, &offset, &major, &minor, &inode, path) == 8)
       {
         uint64_t addr = (uint64_t)(uintptr_t) __builtin_extract_return_addr(__builtin_return_address(0));
-- 
2.43.0


From f95e72d9d0fba3a33ecead400f7fdc3f2f02c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 49/87] fix: enable the wall timer where std::chrono is
 available

The configuration defines VITAL_USE_STD_CHRONO, so the test for
VITAL_USE_CHRONO always selected the timer that does not time.
---
 vital/util/wall_timer.h.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/wall_timer.h.in b/vital/util/wall_timer.h.in
index 7dc3c6c..3fbb026 100644
--- a/vital/util/wall_timer.h.in
+++ b/vital/util/wall_timer.h.in
@@ -38,7 +38,7 @@
 
 #include <vital/util/timer.h>
 
-#if VITAL_USE_CHRONO
+#if VITAL_USE_STD_CHRONO
 
 #include <string>
 #include <chrono>
-- 
2.43.0


From 2275765c319a9f70e8bc781f8563912c920e732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 50/87] fix: keep the wall timer independent of clock
 adjustments

With the system clock an interval was wrong, or negative, when the clock
was set while the timer was running.
---
 vital/util/wall_timer.h.in | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vital/util/wall_timer.h.in b/vital/util/wall_timer.h.in
index 3fbb026..1602da7 100644
--- a/vital/util/wall_timer.h.in
+++ b/vital/util/wall_timer.h.in
@@ -76,7 +76,7 @@ public:
   virtual void start()
   {
     m_active = true;
-    m_start = std::chrono::system_clock::now();
+    m_start = std::chrono::steady_clock::now();
   }
 
 
@@ -89,7 +89,7 @@ public:
   virtual void stop()
   {
     m_active = false;
-    m_end = std::chrono::system_clock::now();
+    m_end = std::chrono::steady_clock::now();
   }
 
 
@@ -106,7 +106,7 @@ public:
     if (m_active)
     {
       // Take a snapshot of the interval.
-      std::chrono::duration< double > elapsed_seconds = std::chrono::system_clock::now() - m_start;
+      std::chrono::duration< double > elapsed_seconds = std::chrono::steady_clock::now() - m_start;
       return elapsed_seconds.count();
     }
     else
@@ -118,8 +118,8 @@ public:
 
 private:
 
-  std::chrono::time_point< std::chrono::system_clock > m_start;
-  std::chrono::time_point< std::chrono::system_clock > m_end;
+  std::chrono::time_point< std::chrono::steady_clock > m_start;
+  std::chrono::time_point< std::chrono::steady_clock > m_end;
 
 }; // end class wall_timer
 
-- 
2.43.0


From b49f337b708fe9eda6a01f7d4c3038367c98daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 51/87] fix: report the first frame of a track set

first_frame() compared with an initial value of zero, so it was zero
whatever frames the tracks have.
---
 vital/types/track_set.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 2c84c6f..809496f 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -120,13 +120,15 @@ track_set
 ::first_frame() const
 {
   frame_id_t first_frame = 0;
+  bool found = false;
   const std::vector<track_sptr> all_tracks = this->tracks();
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() < first_frame )
+    if( ! t->empty() && ( ! found || t->first_frame() < first_frame ) )
     {
       first_frame = t->first_frame();
+      found = true;
     }
   }
 
-- 
2.43.0


From 0a7785dc275c043d038b2f88ebb44603c7333059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 52/87] fix: do not take tracks without states for tracks on
 frame zero

An empty track reports zero as its first and last frame. Where that is the
last frame of the set, last_frame_features() and last_frame_descriptors()
read the state before the beginning of its history, and new_tracks() and
terminated_tracks() returned it for frame zero.
---
 vital/types/track_set.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 809496f..9dbe9da 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -207,7 +207,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() == frame_number )
+    if( ! t->empty() && t->first_frame() == frame_number )
     {
       new_tracks.push_back(t);
     }
@@ -228,7 +228,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == frame_number )
+    if( ! t->empty() && t->last_frame() == frame_number )
     {
       terminated_tracks.push_back(t);
     }
@@ -277,7 +277,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_features.push_back((t->end()-1)->feat);
     }
@@ -298,7 +298,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_descriptors.push_back((t->end()-1)->desc);
     }
-- 
2.43.0


From 037b256c36935f9a5b0eb3f0f43bc4ee9a53bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 53/87] fix: keep the image memory when assigning to it fails

When the allocation failed the memory was already released but its size kept.
---
 vital/types/image.cxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vital/types/image.cxx b/vital/types/image.cxx
index da718d9..312d1a6 100644
--- a/vital/types/image.cxx
+++ b/vital/types/image.cxx
@@ -87,12 +87,9 @@ image_memory
 
   if ( size_ != other.size_ )
   {
+    char* data = ( other.size_ > 0 ) ? new char[other.size_] : 0;
     delete [] reinterpret_cast< char* > ( data_ );
-    data_ = 0;
-    if ( other.size_ > 0 )
-    {
-      data_ = new char[other.size_];
-    }
+    data_ = data;
     size_ = other.size_;
   }
 
-- 
2.43.0


From c694184eec50fef111978b2bd33c076448ea117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 54/87] fix: touch existing files that cannot be read

---
 vital/kwiversys/SystemTools.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index fd4e49f..22fb17b 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -1318,7 +1318,8 @@ bool SystemTools::PathCygwinToWin32(const char *path, char *win32_path)
 
 bool SystemTools::Touch(const std::string& filename, bool create)
 {
-  if (!SystemTools::FileExists(filename))
+  // A file that cannot be read can be touched nevertheless.
+  if (!SystemTools::TestFileAccess(filename, TEST_FILE_OK))
     {
     if(create)
       {
-- 
2.43.0


From 93da2ba41917ce42bd56ee4fca6e5e6c49ed3214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 55/87] fix: collapse paths below working directories longer
 than 2047 bytes

---
 vital/kwiversys/SystemTools.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 22fb17b..b9b857e 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -3357,8 +3357,8 @@ int SystemTools::ChangeDirectory(const std::string& dir)
 
 std::string SystemTools::GetCurrentWorkingDirectory(bool collapse)
 {
-  char buf[2048];
-  const char* cwd = Getcwd(buf, 2048);
+  char buf[KWSYS_SYSTEMTOOLS_MAXPATH];
+  const char* cwd = Getcwd(buf, sizeof(buf));
   std::string path;
   if ( cwd )
     {
@@ -3602,8 +3602,8 @@ std::string SystemTools::CollapseFullPath(const std::string& in_path,
     else
       {
       // Use the current working directory as a base path.
-      char buf[2048];
-      if(const char* cwd = Getcwd(buf, 2048))
+      char buf[KWSYS_SYSTEMTOOLS_MAXPATH];
+      if(const char* cwd = Getcwd(buf, sizeof(buf)))
         {
         SystemTools::SplitPath(cwd, base_components);
         }
-- 
2.43.0


From 515e2edfad6e7df385226d390c07d8980357baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 56/87] fix: keep the existing file when an empty configuration
 block is refused

---
 vital/config/config_block_io.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vital/config/config_block_io.cxx b/vital/config/config_block_io.cxx
index 116c822..6aec125 100644
--- a/vital/config/config_block_io.cxx
+++ b/vital/config/config_block_io.cxx
@@ -378,6 +378,13 @@ write_config_file( config_block_sptr const& config,
           "Path given is a directory, to which we clearly can't write." );
   }
 
+  // Refuse an empty block before an existing file is truncated.
+  if ( config->available_values().empty() )
+  {
+    throw config_file_write_exception( file_path,
+          "No parameters in the given config_block!" );
+  }
+
   // Check that the directory of the given filepath exists, creating necessary
   // directories where needed.
   config_path_t parent_dir = kwiversys::SystemTools::GetFilenamePath(
-- 
2.43.0


From 7206bc6d51b8c0bbe7f21186e76a8ebfafd409ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:01 +0000
Subject: [PATCH 57/87] fix: stop reading the processor description on errors
 and at its end

---
 vital/kwiversys/SystemInformation.cxx | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 703e45f..668eb5a 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3186,14 +3186,30 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
     return false;
     }
 
-  size_t fileSize = 0;
-  while(!feof(fd))
+  for(;;)
     {
-    buffer += static_cast<char>(fgetc(fd));
-    fileSize++;
+    errno = 0;
+    int c = fgetc(fd);
+    if(c != EOF)
+      {
+      buffer += static_cast<char>(c);
+      }
+    else if(ferror(fd) && errno == EINTR)
+      {
+      clearerr(fd);
+      }
+    else
+      {
+      break;
+      }
     }
+  const bool readError = ferror(fd) != 0;
   fclose( fd );
-  buffer.resize(fileSize-2);
+  if(readError || buffer.empty())
+    {
+    std::cout << "Problem reading /proc/cpuinfo" << std::endl;
+    return false;
+    }
   // Number of logical CPUs (combination of multiple processors, multi-core
   // and hyperthreading)
   size_t pos = buffer.find("processor\t");
-- 
2.43.0


From 7c728251f6ff45077a64024510d79008efd434a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 58/87] fix: do not take the rest of the processor description
 for an empty value

---
 vital/kwiversys/SystemInformation.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 668eb5a..a6d32aa 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3165,7 +3165,13 @@ std::string SystemInformationImplementation::ExtractValueFromCpuInfoFile(std::st
           return this->ExtractValueFromCpuInfoFile(buffer, word, pos2);
           }
         }
-      return buffer.substr(pos+2,pos2-pos-2);
+      // The value is separated from the colon by a space, unless it is empty.
+      ++pos;
+      if(buffer[pos] == ' ')
+        {
+        ++pos;
+        }
+      return buffer.substr(pos,pos2-pos);
       }
     }
   this->CurrentPositionInFile = buffer.npos;
-- 
2.43.0


From 290f85663b4c8498cd3078a4036eadedb718c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 59/87] fix: count the cores of machines with one processor or
 without core counts

---
 vital/kwiversys/SystemInformation.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index a6d32aa..79fa3ef 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3246,7 +3246,11 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
   std::string cores =
                         this->ExtractValueFromCpuInfoFile(buffer,"cpu cores");
   int numberOfCoresPerCPU=atoi(cores.c_str());
-  if (maxId > 0)
+  if (numberOfCoresPerCPU < 1)
+    {
+    numberOfCoresPerCPU = 1;
+    }
+  if (maxId >= 0)
     {
     this->NumberOfPhysicalCPU=static_cast<unsigned int>(
       numberOfCoresPerCPU*(maxId+1));
-- 
2.43.0


From c649ad9aab8b7af060f55cc9559f1a51ae622e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 60/87] fix: look for processor features when there are flags

---
 vital/kwiversys/SystemInformation.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 79fa3ef..b9941b1 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3372,7 +3372,7 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
 
   // processor feature flags (probably x86 specific)
   std::string cpuflags = this->ExtractValueFromCpuInfoFile(buffer,"flags");
-  if(!cpurev.empty())
+  if(!cpuflags.empty())
     {
     // now we can match every flags as space + flag + space
     cpuflags = " " + cpuflags + " ";
-- 
2.43.0


From e1e9d20d546def62ed87a66eab6e73f23310d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 61/87] fix: do not take other fields containing a field's name
 for the field

---
 vital/kwiversys/SystemInformation.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index b9941b1..3c6126f 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -982,12 +982,12 @@ int NameValue(
   size_t nLines=lines.size();
   for (size_t i=0; i<nLines; ++i)
     {
-    size_t at=lines[i].find(name);
-    if (at==std::string::npos)
+    // other lines may contain the name in their values
+    if (lines[i].compare(0,name.size(),name)!=0)
       {
       continue;
       }
-    std::istringstream is(lines[i].substr(at+name.size()));
+    std::istringstream is(lines[i].substr(name.size()));
     is >> value;
     return 0;
     }
-- 
2.43.0


From 304c8b4f28b8978cb22633c081d354fb1e497095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 62/87] fix: parse kernel releases with numbers of more than
 one digit

---
 vital/kwiversys/SystemInformation.cxx | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 3c6126f..6ced57a 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3919,21 +3919,11 @@ bool SystemInformationImplementation::QueryLinuxMemory()
     return false;
     }
 
-  if( strlen(unameInfo.release)>=3 )
+  // release looks like "2.6.3-15mdk-i686-up-4GB"
+  if( sscanf(unameInfo.release, "%d.%d", &linuxMajor, &linuxMinor)!=2 )
     {
-    // release looks like "2.6.3-15mdk-i686-up-4GB"
-    char majorChar=unameInfo.release[0];
-    char minorChar=unameInfo.release[2];
-
-    if( isdigit(majorChar) )
-      {
-      linuxMajor=majorChar-'0';
-      }
-
-    if( isdigit(minorChar) )
-      {
-      linuxMinor=minorChar-'0';
-      }
+    linuxMajor=0;
+    linuxMinor=0;
     }
 
   FILE *fd = fopen("/proc/meminfo", "r" );
-- 
2.43.0


From b42073a2612f63183fc91a2a08d2365028329a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:29 +0000
Subject: [PATCH 63/87] fix: do not take configuration values for undefined
 when memory runs out

---
 vital/config/token_type_config.cxx | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/vital/config/token_type_config.cxx b/vital/config/token_type_config.cxx
index d2a46b6..3020a80 100644
--- a/vital/config/token_type_config.cxx
+++ b/vital/config/token_type_config.cxx
@@ -63,10 +63,6 @@ lookup_entry (kwiver::vital::config_block_key_t const& name,
   {
     retcode = false; // not found
   }
-  catch ( ... )
-  {
-    retcode = false; // not found
-  }
 
   return retcode;
 }
-- 
2.43.0


From ce196a52f900c34c88b75da4c09d1ab7a7ce5687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:26 +0000
Subject: [PATCH 64/87] fix: show details of implementations with a colon in
 their name or no name

---
 vital/tools/plugin_explorer.cxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vital/tools/plugin_explorer.cxx b/vital/tools/plugin_explorer.cxx
index 129870c..f0902fb 100644
--- a/vital/tools/plugin_explorer.cxx
+++ b/vital/tools/plugin_explorer.cxx
@@ -32,7 +32,6 @@
 #include <vital/algo/algorithm.h>
 #include <vital/registrar.h>
 #include <vital/config/config_block.h>
-#include <vital/util/tokenize.h>
 #include <vital/vital_foreach.h>
 #include <kwiversys/CommandLineArguments.hxx>
 
@@ -76,14 +75,16 @@ detailed_algo()
 
   VITAL_FOREACH( std::string const& name, reg_names )
   {
-    std::vector< std::string > token;
-    kwiver::vital::tokenize( name, token, ":" );
+    // only the first separator is certain to separate type and implementation
+    const std::string::size_type sep = name.find( ':' );
+    const std::string type_name = name.substr( 0, sep );
+    const std::string impl_name = name.substr( sep + 1 );
 
     // create instance type_name : impl_name
-    kwiver::vital::algorithm_sptr ptr = kwiver::vital::algorithm::create( token[0], token[1] );
+    kwiver::vital::algorithm_sptr ptr = kwiver::vital::algorithm::create( type_name, impl_name );
 
     std::cout << "\n---------------------"
-              << "\nDetailed info on type \"" << token[0] << "\" implementation \"" << token[1] << "\""
+              << "\nDetailed info on type \"" << type_name << "\" implementation \"" << impl_name << "\""
               << std::endl;
 
 //     if ( opt_config )
-- 
2.43.0


From 054a372bf99021fd623cdec0ccf1a2c0abd1d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 65/87] fix: do not free the demangling buffer after the
 demangler replaced it

---
 vital/kwiversys/SystemInformation.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 6ced57a..5d635e9 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -1464,15 +1464,15 @@ std::string SymbolProperties::Demangle(const char *symbol) const
   std::string result = safes(symbol);
 #if defined(KWSYS_SYSTEMINFORMATION_HAS_CPP_DEMANGLE)
   int status = 0;
-  size_t bufferLen = 1024;
-  char *buffer = (char*)malloc(1024);
+  // The demangler allocates the buffer it returns. A buffer passed in would
+  // be reallocated, and hence be invalid here, for a long name.
   char *demangledSymbol =
-    abi::__cxa_demangle(symbol, buffer, &bufferLen, &status);
-  if (!status)
+    abi::__cxa_demangle(symbol, 0, 0, &status);
+  if (!status && demangledSymbol)
     {
     result = demangledSymbol;
     }
-  free(buffer);
+  free(demangledSymbol);
 #else
   (void)symbol;
 #endif
-- 
2.43.0


From dd0aa80edc8eb952898a2849cf9ead67aec45a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 66/87] fix: do not overflow the buffer for a long path of the
 program

---
 vital/kwiversys/SystemInformation.cxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 5d635e9..da6be74 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -1441,12 +1441,17 @@ std::string SymbolProperties::GetBinary() const
   if (this->Binary=="/proc/self/exe")
     {
     std::string binary;
-    char buf[1024]={'\0'};
+    std::vector<char> buf(1024);
     ssize_t ll=0;
-    if ((ll=readlink("/proc/self/exe",buf,1024))>0)
+    // a result that fills the buffer may have been cut short
+    while ((ll=readlink("/proc/self/exe",&buf[0],buf.size()))
+             == static_cast<ssize_t>(buf.size()))
       {
-      buf[ll]='\0';
-      binary=buf;
+      buf.resize(2*buf.size());
+      }
+    if (ll>0)
+      {
+      binary.assign(&buf[0],static_cast<size_t>(ll));
       }
     else
       {
-- 
2.43.0


From 8c96c833120acc1e3ae4561099063882363bc302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:11 +0000
Subject: [PATCH 67/87] fix: insert ranges of forward iterators into hash
 containers

The three-argument distance is not part of standard C++, so that inserting
or constructing from such a range did not compile.
---
 vital/kwiversys/hashtable.hxx.in | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index 9a20226..b459afd 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -427,8 +427,7 @@ public:
   void insert_unique(_ForwardIterator __f, _ForwardIterator __l,
                      std::forward_iterator_tag)
   {
-    size_type __n = 0;
-    std::distance(__f, __l, __n);
+    size_type __n = std::distance(__f, __l);
     resize(_M_num_elements + __n);
     for ( ; __n > 0; --__n, ++__f)
       insert_unique_noresize(*__f);
@@ -438,8 +437,7 @@ public:
   void insert_equal(_ForwardIterator __f, _ForwardIterator __l,
                     std::forward_iterator_tag)
   {
-    size_type __n = 0;
-    std::distance(__f, __l, __n);
+    size_type __n = std::distance(__f, __l);
     resize(_M_num_elements + __n);
     for ( ; __n > 0; --__n, ++__f)
       insert_equal_noresize(*__f);
-- 
2.43.0


From b90316e0507060521013114473132a19c661122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:52 +0000
Subject: [PATCH 68/87] fix: do not use the key after freeing it when erasing
 from a hash container

The key passed to erase may be that of an element it removes.
---
 vital/kwiversys/hashtable.hxx.in | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index b459afd..9ec09d4 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -765,12 +765,15 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
   size_type __erased = 0;
 
   if (__first) {
+    // Nodes are deleted only at the end, as the key may be part of one.
+    _Node* __doomed = 0;
     _Node* __cur = __first;
     _Node* __next = __cur->_M_next;
     while (__next) {
       if (_M_equals(_M_get_key(__next->_M_val), __key)) {
         __cur->_M_next = __next->_M_next;
-        _M_delete_node(__next);
+        __next->_M_next = __doomed;
+        __doomed = __next;
         __next = __cur->_M_next;
         ++__erased;
         --_M_num_elements;
@@ -782,10 +785,16 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
     }
     if (_M_equals(_M_get_key(__first->_M_val), __key)) {
       _M_buckets[__n] = __first->_M_next;
-      _M_delete_node(__first);
+      __first->_M_next = __doomed;
+      __doomed = __first;
       ++__erased;
       --_M_num_elements;
     }
+    while (__doomed) {
+      _Node* __tmp = __doomed->_M_next;
+      _M_delete_node(__doomed);
+      __doomed = __tmp;
+    }
   }
   return __erased;
 }
-- 
2.43.0


From f2841b4d17f394d89370944b1ae7a8e6b2b91758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:29 +0000
Subject: [PATCH 69/87] fix: keep a hash container usable when assigning to it
 runs out of memory

The table was left without any bucket and the next lookup divided by zero.
---
 vital/kwiversys/hashtable.hxx.in | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index 9ec09d4..a9c07c9 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -316,11 +316,9 @@ public:
   hashtable& operator= (const hashtable& __ht)
   {
     if (&__ht != this) {
-      clear();
-      _M_hash = __ht._M_hash;
-      _M_equals = __ht._M_equals;
-      _M_get_key = __ht._M_get_key;
-      _M_copy_from(__ht);
+      // Copy first so that a failure leaves this table as it was.
+      hashtable __tmp(__ht);
+      swap(__tmp);
     }
     return *this;
   }
-- 
2.43.0


From e1cfc9041fdf7e3f63571f2c1649ac71cd7dceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:39 +0000
Subject: [PATCH 70/87] fix: copy a regular expression with all of its state
 and release the old one

---
 vital/kwiversys/RegularExpression.cxx    | 43 +++++++-----------------
 vital/kwiversys/RegularExpression.hxx.in | 19 +++++++++--
 2 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 8274565..45f3a27 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -45,31 +45,8 @@ namespace KWSYS_NAMESPACE
 
 // RegularExpression -- Copies the given regular expression.
 RegularExpression::RegularExpression (const RegularExpression& rxp) {
-  if ( !rxp.program )
-    {
-    this->program = 0;
-    return;
-    }
-  int ind;
-  this->progsize = rxp.progsize;                // Copy regular expression size
-  this->program = new char[this->progsize];     // Allocate storage
-  for(ind=this->progsize; ind-- != 0;)          // Copy regular expresion
-    this->program[ind] = rxp.program[ind];
-  this->startp[0] = rxp.startp[0];              // Copy pointers into last
-  this->endp[0] = rxp.endp[0];                  // Successful "find" operation
-  this->regmust = rxp.regmust;                  // Copy field
-  if (rxp.regmust != 0) {
-    char* dum = rxp.program;
-    ind = 0;
-    while (dum != rxp.regmust) {
-      ++dum;
-      ++ind;
-    }
-    this->regmust = this->program + ind;
-  }
-  this->regstart = rxp.regstart;                // Copy starting index
-  this->reganch = rxp.reganch;                  // Copy remaining private data
-  this->regmlen = rxp.regmlen;                  // Copy remaining private data
+  this->clear();
+  *this = rxp;
 }
 
 // operator= -- Copies the given regular expression.
@@ -81,17 +58,23 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
     }
   if ( !rxp.program )
     {
-    this->program = 0;
+    delete [] this->program;
+    this->clear();
     return *this;
     }
   int ind;
-  this->progsize = rxp.progsize;                // Copy regular expression size
+  char* copy = new char[rxp.progsize];          // Allocate storage
   delete [] this->program;
-  this->program = new char[this->progsize];     // Allocate storage
+  this->program = copy;
+  this->progsize = rxp.progsize;                // Copy regular expression size
   for(ind=this->progsize; ind-- != 0;)          // Copy regular expresion
     this->program[ind] = rxp.program[ind];
-  this->startp[0] = rxp.startp[0];              // Copy pointers into last
-  this->endp[0] = rxp.endp[0];                  // Successful "find" operation
+  for(ind=0; ind < NSUBEXP; ++ind)              // Copy pointers into last
+    {                                           // Successful "find" operation
+    this->startp[ind] = rxp.startp[ind];
+    this->endp[ind] = rxp.endp[ind];
+    }
+  this->searchstring = rxp.searchstring;
   this->regmust = rxp.regmust;                  // Copy field
   if (rxp.regmust != 0) {
     char* dum = rxp.program;
diff --git a/vital/kwiversys/RegularExpression.hxx.in b/vital/kwiversys/RegularExpression.hxx.in
index d0235d8..dc0b572 100644
--- a/vital/kwiversys/RegularExpression.hxx.in
+++ b/vital/kwiversys/RegularExpression.hxx.in
@@ -286,6 +286,7 @@ public:
   
   enum { NSUBEXP = 10 };
 private: 
+  inline void clear();                  // No expression, nothing found
   const char* startp[NSUBEXP];
   const char* endp[NSUBEXP];
   char  regstart;                       // Internal use only
@@ -302,7 +303,21 @@ private:
  */
 inline RegularExpression::RegularExpression () 
 { 
+  this->clear();
+}
+
+inline void RegularExpression::clear ()
+{
+  for (int i = 0; i < NSUBEXP; ++i)
+    {
+    this->startp[i] = this->endp[i] = 0;
+    }
+  this->regstart = this->reganch = 0;
+  this->regmust = 0;
+  this->regmlen = 0;
   this->program = 0;
+  this->progsize = 0;
+  this->searchstring = 0;
 }
 
 /**
@@ -311,7 +326,7 @@ inline RegularExpression::RegularExpression ()
  */
 inline RegularExpression::RegularExpression (const char* s) 
 {  
-  this->program = 0;
+  this->clear();
   if ( s )
     {
     this->compile(s);
@@ -324,7 +339,7 @@ inline RegularExpression::RegularExpression (const char* s)
  */
 inline RegularExpression::RegularExpression (const std::string& s)
 {
-  this->program = 0;
+  this->clear();
   this->compile(s);
 }
 
-- 
2.43.0


From e0a136e0f321b12003267d7803bb3bd7d50ea214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:39 +0000
Subject: [PATCH 71/87] fix: compare regular expressions of which one is not
 valid

---
 vital/kwiversys/RegularExpression.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 45f3a27..63576f1 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -95,6 +95,8 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
 // operator== -- Returns true if two regular expressions have the same
 // compiled program for pattern matching.
 bool RegularExpression::operator== (const RegularExpression& rxp) const {
+  if (!this->program || !rxp.program)           // Nothing compiled?
+    return !this->program && !rxp.program;
   if (this != &rxp) {                           // Same address?
     int ind = this->progsize;                   // Get regular expression size
     if (ind != rxp.progsize)                    // If different size regexp
@@ -111,6 +113,8 @@ bool RegularExpression::operator== (const RegularExpression& rxp) const {
 // and the same start and end pointers.
 
 bool RegularExpression::deep_equal (const RegularExpression& rxp) const {
+  if (!this->program || !rxp.program)           // Nothing compiled?
+    return !this->program && !rxp.program;
   int ind = this->progsize;                     // Get regular expression size
   if (ind != rxp.progsize)                      // If different size regexp
     return false;                               // Return failure
-- 
2.43.0


From bf009e8f199ddb936931d256c970b3d9ccf87df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:39 +0000
Subject: [PATCH 72/87] fix: keep a regular expression usable when compiling it
 runs out of memory

---
 vital/kwiversys/RegularExpression.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 63576f1..c7a4dd6 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -364,9 +364,10 @@ bool RegularExpression::compile (const char* exp) {
 
     // Allocate space.
 //#ifndef WIN32
+    char* code = new char[regsize];
     if (this->program != 0) delete [] this->program;
 //#endif
-    this->program = new char[regsize];
+    this->program = code;
     this->progsize = static_cast<int>(regsize);
 
     if (this->program == 0) {
-- 
2.43.0


From 43149c3e958431864bbfc7a3eca08d0f3820ad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:23 +0000
Subject: [PATCH 73/87] fix: do not decode the end mark of Base64 as a byte

---
 vital/kwiversys/Base64.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vital/kwiversys/Base64.c b/vital/kwiversys/Base64.c
index 4b8ede2..87d206e 100644
--- a/vital/kwiversys/Base64.c
+++ b/vital/kwiversys/Base64.c
@@ -177,6 +177,13 @@ int kwsysBase64_Decode3(const unsigned char *src, unsigned char *dest)
     { 
     return 0; 
     }
+
+  /* A padding of all 4 bytes marks the end */
+
+  if (src[0] == '=' || src[1] == '=')
+    {
+    return 0;
+    }
   
   /* Decode the 3 bytes */
 
-- 
2.43.0


From 0ef80dba19bb58d5d6145b01613f14af33bc3824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:23 +0000
Subject: [PATCH 74/87] fix: do not read Base64 beyond the length given

---
 vital/kwiversys/Base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/Base64.c b/vital/kwiversys/Base64.c
index 87d206e..6a84844 100644
--- a/vital/kwiversys/Base64.c
+++ b/vital/kwiversys/Base64.c
@@ -227,7 +227,7 @@ size_t kwsysBase64_Decode(const unsigned char *input,
   if (max_input_length)
     {
     const unsigned char *end = input + max_input_length;
-    while (ptr < end)
+    while ((end - ptr) >= 4)
       {
       int len = kwsysBase64_Decode3(ptr, optr);
       optr += len;
-- 
2.43.0


From 4a2528d0730bf8400cca09029c4cd04c7fb304d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:56 +0000
Subject: [PATCH 75/87] fix: keep a string whole when replacing in it runs out
 of memory

---
 vital/kwiversys/SystemTools.cxx | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index b9b857e..000f89c 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -807,7 +807,7 @@ void SystemTools::ReplaceString(std::string& source,
                                 const std::string& with)
 {
   const char *src = source.c_str();
-  char *searchPos = const_cast<char *>(strstr(src,replace));
+  const char *searchPos = strstr(src,replace);
 
   // get out quick if string is not found
   if (!searchPos)
@@ -816,26 +816,21 @@ void SystemTools::ReplaceString(std::string& source,
     }
 
   // perform replacements until done
-  char *orig = strdup(src);
-  char *currentPos = orig;
-  searchPos = searchPos - src + orig;
-
-  // initialize the result
-  source.erase(source.begin(),source.end());
+  const char *currentPos = src;
+  std::string result;
   do
     {
-    *searchPos = '\0';
-    source += currentPos;
+    result.append(currentPos, searchPos - currentPos);
     currentPos = searchPos + replaceSize;
     // replace
-    source += with;
+    result += with;
     searchPos = strstr(currentPos,replace);
     }
   while (searchPos);
 
   // copy any trailing text
-  source += currentPos;
-  free(orig);
+  result += currentPos;
+  source.swap(result);
 }
 
 #if defined(KEY_WOW64_32KEY) && defined(KEY_WOW64_64KEY)
-- 
2.43.0


From 61508e38f4871b2f9d51a0ebe20e64feb9297b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:09 +0000
Subject: [PATCH 76/87] fix: do not list the values of arguments among the
 remaining arguments

---
 vital/kwiversys/CommandLineArguments.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 3636836..8b4f83e 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -239,6 +239,7 @@ int CommandLineArguments::Parse()
           return 0;
           }
         cc ++;
+        this->Internals->LastArgument = cc;
         break;
       case EQUAL_ARGUMENT:
         if ( arg.size() == sarg.size() || arg.at(sarg.size()) != '=' )
@@ -277,6 +278,7 @@ int CommandLineArguments::Parse()
             return 0;
             }
           }
+        this->Internals->LastArgument = cc - 1;
         if ( cc != this->Internals->Argv.size() )
           {
           CommandLineArguments_DEBUG("Again End of multi argument " << arg);
-- 
2.43.0


From 0927c83bf827e0407fe3dca4e87924b72ed62b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:09 +0000
Subject: [PATCH 77/87] fix: do not overflow buffers for the help of long
 arguments

---
 vital/kwiversys/CommandLineArguments.cxx | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 8b4f83e..23bef13 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -589,10 +589,6 @@ void CommandLineArguments::GenerateHelp()
       }
     }
 
-  // Create format for that string
-  char format[80];
-  sprintf(format, "  %%-%us  ", static_cast<unsigned int>(maxlen));
-
   maxlen += 4; // For the space before and after the option
 
   // Print help for each option
@@ -604,19 +600,20 @@ void CommandLineArguments::GenerateHelp()
     for ( sit = mpit->second.begin(); sit != mpit->second.end(); sit++ )
       {
       str << std::endl;
-      char argument[100];
-      sprintf(argument, "%s", sit->c_str());
+      CommandLineArguments::Internal::String argument = *sit;
       switch ( this->Internals->Callbacks[*sit].ArgumentType )
         {
         case CommandLineArguments::NO_ARGUMENT: break;
-        case CommandLineArguments::CONCAT_ARGUMENT: strcat(argument, "opt"); break;
-        case CommandLineArguments::SPACE_ARGUMENT:  strcat(argument, " opt"); break;
-        case CommandLineArguments::EQUAL_ARGUMENT:  strcat(argument, "=opt"); break;
-        case CommandLineArguments::MULTI_ARGUMENT:  strcat(argument, " opt opt ..."); break;
+        case CommandLineArguments::CONCAT_ARGUMENT: argument += "opt"; break;
+        case CommandLineArguments::SPACE_ARGUMENT:  argument += " opt"; break;
+        case CommandLineArguments::EQUAL_ARGUMENT:  argument += "=opt"; break;
+        case CommandLineArguments::MULTI_ARGUMENT:  argument += " opt opt ..."; break;
+        }
+      if ( argument.size() < maxlen - 4 )
+        {
+        argument.resize(maxlen - 4, ' ');
         }
-      char buffer[80];
-      sprintf(buffer, format, argument);
-      str << buffer;
+      str << "  " << argument << "  ";
       }
     const char* ptr = this->Internals->Callbacks[mpit->first].Help;
     size_t len = strlen(ptr);
-- 
2.43.0


From 22acc96253d331f5c3cacee84dfbea3f85f8dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:09 +0000
Subject: [PATCH 78/87] fix: generate the help of arguments that leave no room
 for it

---
 vital/kwiversys/CommandLineArguments.cxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 23bef13..b12d1f0 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -623,13 +623,10 @@ void CommandLineArguments::GenerateHelp()
       // If argument with help is longer than line length, split it on previous
       // space (or tab) and continue on the next line
       CommandLineArguments::Internal::String::size_type cc;
-      for ( cc = 0; ptr[cc]; cc ++ )
+      while ( *ptr == ' ' || *ptr == '\t' )
         {
-        if ( *ptr == ' ' || *ptr == '\t' )
-          {
-          ptr ++;
-          len --;
-          }
+        ptr ++;
+        len --;
         }
       if ( cnt > 0 )
         {
@@ -639,7 +636,7 @@ void CommandLineArguments::GenerateHelp()
           }
         }
       CommandLineArguments::Internal::String::size_type skip = len;
-      if ( skip > this->LineLength - maxlen )
+      if ( this->LineLength > maxlen && skip > this->LineLength - maxlen )
         {
         skip = this->LineLength - maxlen;
         for ( cc = skip-1; cc > 0; cc -- )
-- 
2.43.0


From cb557276a4beb7589644b5e410afd690015b8aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:09 +0000
Subject: [PATCH 79/87] fix: give the help of an argument whose help is its own
 name

---
 vital/kwiversys/CommandLineArguments.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index b12d1f0..b3793ff 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -478,7 +478,7 @@ const char* CommandLineArguments::GetHelp(const char* arg)
   // Since several arguments may point to the same argument, find the one this
   // one point to if this one is pointing to another argument.
   CommandLineArgumentsCallbackStructure *cs = &(it->second);
-  for(;;)
+  for(size_t n = this->Internals->Callbacks.size(); n > 0; --n)
     {
     CommandLineArguments::Internal::CallbacksMap::iterator hit 
       = this->Internals->Callbacks.find(cs->Help);
@@ -548,7 +548,7 @@ void CommandLineArguments::GenerateHelp()
     {
     CommandLineArgumentsCallbackStructure *cs = &(it->second);
     mpit = mp.find(cs->Help);
-    if ( mpit != mp.end() )
+    if ( mpit != mp.end() && mpit->first != it->first )
       {
       mpit->second.insert(it->first);
       smpit = mp.find(it->first);
-- 
2.43.0


From 12e4dee73532a0c4d5e06284670bd877e7b66003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:29 +0000
Subject: [PATCH 80/87] fix: do not lose the value of an argument when memory
 runs out

---
 vital/kwiversys/CommandLineArguments.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index b3793ff..99f7f2b 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -773,6 +773,8 @@ void CommandLineArguments::PopulateVariable(
 void CommandLineArguments::PopulateVariable(
   std::vector<char*>* variable, const std::string& value)
 {
+  // Adding the value must not fail once it is allocated.
+  variable->reserve(variable->size() + 1);
   char* var = new char[ value.size() + 1 ];
   strcpy(var, value.c_str());
   variable->push_back(var);
-- 
2.43.0


From a3742c5549f6f86a688ad9341dbf6a948608e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:13 +0000
Subject: [PATCH 81/87] fix: refuse colours outside 0 to 255 when reading and
 keep the value on failure

---
 vital/types/color.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/vital/types/color.h b/vital/types/color.h
index 0359c11..6d0b51b 100644
--- a/vital/types/color.h
+++ b/vital/types/color.h
@@ -97,10 +97,17 @@ std::istream&
 operator>>( std::istream& s, rgb_color& c )
 {
   int rv = 255, gv = 255, bv = 255;
-  s >> rv >> gv >> bv;
-  c.r = static_cast<unsigned char>( rv );
-  c.g = static_cast<unsigned char>( gv );
-  c.b = static_cast<unsigned char>( bv );
+  if ( s >> rv >> gv >> bv )
+  {
+    if ( rv < 0 || rv > 255 || gv < 0 || gv > 255 || bv < 0 || bv > 255 )
+    {
+      s.setstate( std::ios::failbit );
+      return s;
+    }
+    c.r = static_cast<unsigned char>( rv );
+    c.g = static_cast<unsigned char>( gv );
+    c.b = static_cast<unsigned char>( bv );
+  }
   return s;
 }
 
-- 
2.43.0


From 9a382e60762ffc005092b2f7e8798cd30c16e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:13 +0000
Subject: [PATCH 82/87] fix: do not store indeterminate values in a feature or
 landmark when reading it fails

---
 vital/types/feature.cxx  | 13 ++++++++-----
 vital/types/landmark.cxx | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/vital/types/feature.cxx b/vital/types/feature.cxx
index 1a3361b..ed26fab 100644
--- a/vital/types/feature.cxx
+++ b/vital/types/feature.cxx
@@ -125,11 +125,14 @@ operator>>( std::istream& s, feature_< T >& f )
     >> scale
     >> angle
     >> color;
-  f.set_loc( loc );
-  f.set_magnitude( magnitude );
-  f.set_scale( scale );
-  f.set_angle( angle );
-  f.set_color( color );
+  if ( s )
+  {
+    f.set_loc( loc );
+    f.set_magnitude( magnitude );
+    f.set_scale( scale );
+    f.set_angle( angle );
+    f.set_color( color );
+  }
   return s;
 }
 
diff --git a/vital/types/landmark.cxx b/vital/types/landmark.cxx
index 79682e8..464d452 100644
--- a/vital/types/landmark.cxx
+++ b/vital/types/landmark.cxx
@@ -124,11 +124,14 @@ operator>>( std::istream& s, landmark_< T >& m )
     >> normal
     >> color
     >> observations;
-  m.set_loc( loc );
-  m.set_scale( scale );
-  m.set_normal( normal );
-  m.set_color( color );
-  m.set_observations( observations );
+  if ( s )
+  {
+    m.set_loc( loc );
+    m.set_scale( scale );
+    m.set_normal( normal );
+    m.set_color( color );
+    m.set_observations( observations );
+  }
   return s;
 }
 
-- 
2.43.0


From 37497156d3627314b2f71a89bf5a6a64ba152c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:13 +0000
Subject: [PATCH 83/87] fix: keep the covariance when a feature or landmark is
 converted

---
 vital/types/feature.cxx  | 1 +
 vital/types/landmark.cxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vital/types/feature.cxx b/vital/types/feature.cxx
index ed26fab..0bc5e8b 100644
--- a/vital/types/feature.cxx
+++ b/vital/types/feature.cxx
@@ -88,6 +88,7 @@ feature_< T >
   magnitude_( static_cast< T > ( f.magnitude() ) ),
   scale_( static_cast< T > ( f.scale() ) ),
   angle_( static_cast< T > ( f.angle() ) ),
+  covar_( f.covar() ),
   color_( f.color() )
 {
 }
diff --git a/vital/types/landmark.cxx b/vital/types/landmark.cxx
index 464d452..fde633a 100644
--- a/vital/types/landmark.cxx
+++ b/vital/types/landmark.cxx
@@ -86,6 +86,7 @@ landmark_< T >
   : loc_( lm.loc().cast< T > () ),
     scale_( static_cast< T > ( lm.scale() ) ),
     normal_( lm.normal().cast< T > () ),
+    covar_( lm.covar() ),
     color_( lm.color() ),
     observations_( lm.observations() )
 {
-- 
2.43.0


From 51a934d8641bf2972e034a1ec9cd4a337a9cb8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:53 +0000
Subject: [PATCH 84/87] fix: convert every element of a covariance matrix to
 the other type

---
 vital/types/covariance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/covariance.h b/vital/types/covariance.h
index 9c0b8e3..1dad0c4 100644
--- a/vital/types/covariance.h
+++ b/vital/types/covariance.h
@@ -68,7 +68,7 @@ public:
   {
     const U* in = other.data();
     T* out = this->data_;
-    for ( unsigned i = 0; i < N; ++i, ++in, ++out )
+    for ( unsigned i = 0; i < data_size; ++i, ++in, ++out )
     {
       *out = static_cast< T > ( *in );
     }
-- 
2.43.0


From 35688e9f2205f38f5a2d698672cd1b59b6ccf3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:51 +0000
Subject: [PATCH 85/87] fix: copy the elements of a dynamic descriptor instead
 of sharing and freeing them twice

---
 vital/types/descriptor.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/vital/types/descriptor.h b/vital/types/descriptor.h
index 928ddc2..5b36a30 100644
--- a/vital/types/descriptor.h
+++ b/vital/types/descriptor.h
@@ -39,6 +39,7 @@
 #include <vital/vital_export.h>
 #include <vital/vital_config.h>
 
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <memory>
@@ -163,6 +164,24 @@ public:
   : data_( new T[len] ),
   length_( len ) { }
 
+  /// Copy Constructor
+  descriptor_dynamic< T > ( descriptor_dynamic< T > const& other )
+  : descriptor_array_of< T > ( other ),
+  data_( new T[other.length_] ),
+  length_( other.length_ )
+  {
+    std::copy( other.data_, other.data_ + length_, data_ );
+  }
+
+  /// Assignment operator
+  descriptor_dynamic< T >& operator=( descriptor_dynamic< T > const& other )
+  {
+    descriptor_dynamic< T > copy( other );
+    std::swap( data_, copy.data_ );
+    std::swap( length_, copy.length_ );
+    return *this;
+  }
+
   /// Destructor
   virtual ~descriptor_dynamic< T > ( ) { delete [] data_; }
 
-- 
2.43.0


From 28ff0739174b28851aee9f98bd43723149442ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:51 +0000
Subject: [PATCH 86/87] fix: assign a frame homography its own copy of the
 matrix like copying does

---
 vital/types/homography_f2f.cxx | 11 +++++++++++
 vital/types/homography_f2f.h   |  3 +++
 vital/types/homography_f2w.cxx | 10 ++++++++++
 vital/types/homography_f2w.h   |  3 +++
 4 files changed, 27 insertions(+)

diff --git a/vital/types/homography_f2f.cxx b/vital/types/homography_f2f.cxx
index 0fa6456..a729017 100644
--- a/vital/types/homography_f2f.cxx
+++ b/vital/types/homography_f2f.cxx
@@ -71,6 +71,17 @@ f2f_homography
 {
 }
 
+/// Assignment operator
+f2f_homography&
+f2f_homography
+::operator=( f2f_homography const &h )
+{
+  this->h_ = h.h_->clone();
+  this->from_id_ = h.from_id_;
+  this->to_id_ = h.to_id_;
+  return *this;
+}
+
 /// Get the homography transformation
 homography_sptr
 f2f_homography
diff --git a/vital/types/homography_f2f.h b/vital/types/homography_f2f.h
index 03d0e02..8d770ea 100644
--- a/vital/types/homography_f2f.h
+++ b/vital/types/homography_f2f.h
@@ -84,6 +84,9 @@ public:
   /// Copy constructor
   f2f_homography( f2f_homography const& h );
 
+  /// Assignment operator
+  f2f_homography& operator=( f2f_homography const& h );
+
   /// Destructor
   virtual ~f2f_homography() VITAL_DEFAULT_DTOR
 
diff --git a/vital/types/homography_f2w.cxx b/vital/types/homography_f2w.cxx
index 22eccc4..565afa5 100644
--- a/vital/types/homography_f2w.cxx
+++ b/vital/types/homography_f2w.cxx
@@ -63,6 +63,16 @@ f2w_homography
 {
 }
 
+/// Assignment operator
+f2w_homography&
+f2w_homography
+::operator=( f2w_homography const &h )
+{
+  this->h_ = h.h_->clone();
+  this->frame_id_ = h.frame_id_;
+  return *this;
+}
+
 /// Get the homography transformation
 homography_sptr
 f2w_homography
diff --git a/vital/types/homography_f2w.h b/vital/types/homography_f2w.h
index d8573b7..5698912 100644
--- a/vital/types/homography_f2w.h
+++ b/vital/types/homography_f2w.h
@@ -58,6 +58,9 @@ public:
   /// Copy Constructor
   f2w_homography( f2w_homography const &h );
 
+  /// Assignment operator
+  f2w_homography& operator=( f2w_homography const &h );
+
   virtual ~f2w_homography() VITAL_DEFAULT_DTOR
 
   /// Get the homography transformation
-- 
2.43.0


From 162f99f7f98c22fe1fcdbed5e58ce1666e23b7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:56 +0000
Subject: [PATCH 87/87] fix: a child whose exit status is lost ends the process
 with an error

When waitpid failed because another part of the program had taken the
status of a child, the object went to the error state while it was still
executing: WaitForExit hung or timed out for ever, and no later call
closed its pipes, reaped its other children or took it out of the table
the signal handler uses, even when it was deleted.
---
 vital/kwiversys/ProcessUNIX.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index de19a2e..fde9d1b 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2086,9 +2086,15 @@ static void kwsysProcessDestroy(kwsysProcess* cp)
       while(((result = waitpid(cp->ForkPIDs[i],
                                &cp->CommandExitCodes[i], WNOHANG)) < 0) &&
             (errno == EINTR));
-      if(result > 0)
+      if(result < 0 && !cp->SelectError)
         {
-        /* This child has termianted.  */
+        /* Unexpected error.  Report the first time this happens.  */
+        strncpy(cp->ErrorMessage, strerror(errno), KWSYSPE_PIPE_BUFFER_SIZE);
+        cp->SelectError = 1;
+        }
+      if(result != 0)
+        {
+        /* This child has termianted, or it can never be waited for.  */
         cp->ForkPIDs[i] = 0;
         if(--cp->CommandsLeft == 0)
           {
@@ -2103,12 +2109,6 @@ static void kwsysProcessDestroy(kwsysProcess* cp)
              grandchildren keep the output pipes open.  */
           }
         }
-      else if(result < 0 && cp->State != kwsysProcess_State_Error)
-        {
-        /* Unexpected error.  Report the first time this happens.  */
-        strncpy(cp->ErrorMessage, strerror(errno), KWSYSPE_PIPE_BUFFER_SIZE);
-        cp->State = kwsysProcess_State_Error;
-        }
       }
     }
 
-- 
2.43.0

