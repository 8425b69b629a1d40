From 428251d0de031c01ba2835266b06ca006a315a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 01/69] fix: read and write the parallel data reader's run
 state atomically

---
 include/mlio/parallel_data_reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mlio/parallel_data_reader.h b/include/mlio/parallel_data_reader.h
index db37233..b80ae94 100644
--- a/include/mlio/parallel_data_reader.h
+++ b/include/mlio/parallel_data_reader.h
@@ -109,7 +109,7 @@ private:
     Data_reader_params params_;
     std::unique_ptr<detail::Instance_reader> reader_;
     std::unique_ptr<detail::Instance_batch_reader> batch_reader_;
-    Run_state state_{};
+    std::atomic<Run_state> state_{};
     std::unique_ptr<Graph_data> graph_;
     std::thread thread_{};
     std::deque<Intrusive_ptr<Example>> fill_queue_{};
-- 
2.43.0


From 27ae4930ff26b7c367da94fd9824e30aa61ffde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 02/69] fix: report every exception of the background thread to
 the reader's caller

---
 src/mlio/parallel_data_reader.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index 2a16aea..dc8c059 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -157,16 +157,16 @@ void Parallel_data_reader::ensure_pipeline_running()
 
 void Parallel_data_reader::run_pipeline()
 {
-    if (graph_->src_node == nullptr) {
-        init_graph();
-    }
+    try {
+        if (graph_->src_node == nullptr) {
+            init_graph();
+        }
 
-    graph_->src_node->activate();
+        graph_->src_node->activate();
 
-    try {
         graph_->obj.wait_for_all();
     }
-    catch (const std::exception &) {
+    catch (...) {
         exception_ptr_ = std::current_exception();
     }
 
-- 
2.43.0


From 00e30ecdd1f5ea32dc1f18427e00ddb7c3a9bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 03/69] fix: recover when the data reader's background thread
 cannot be started

---
 src/mlio/detail/thread.h         | 10 +++++++++-
 src/mlio/parallel_data_reader.cc | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mlio/detail/thread.h b/src/mlio/detail/thread.h
index 8505d57..6ecaa6e 100644
--- a/src/mlio/detail/thread.h
+++ b/src/mlio/detail/thread.h
@@ -41,7 +41,15 @@ std::thread start_thread(Func &&f, Args &&... args)
         throw std::system_error{s, std::generic_category()};
     }
 
-    std::thread t{std::forward<Func>(f), std::forward<Args>(args)...};
+    std::thread t{};
+    try {
+        t = std::thread{std::forward<Func>(f), std::forward<Args>(args)...};
+    }
+    catch (...) {
+        ::pthread_sigmask(SIG_SETMASK, &original_mask, nullptr);
+
+        throw;
+    }
 
     // Restore the signal mask.
     s = ::pthread_sigmask(SIG_SETMASK, &original_mask, nullptr);
diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index dc8c059..edf1ea1 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -152,7 +152,15 @@ void Parallel_data_reader::ensure_pipeline_running()
 
     state_ = Run_state::running;
 
-    thread_ = detail::start_thread(&Parallel_data_reader::run_pipeline, this);
+    try {
+        thread_ = detail::start_thread(&Parallel_data_reader::run_pipeline, this);
+    }
+    catch (...) {
+        // There is no background thread to wait for or to join.
+        state_ = Run_state::not_started;
+
+        throw;
+    }
 }
 
 void Parallel_data_reader::run_pipeline()
-- 
2.43.0


From 4a25df55d5e21e6d04c1a7a840a36ddb57fda92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 04/69] fix: report invalid UTF-8 in a string tensor as an
 error instead of ending the process

pybind11's error_already_set is not a std::runtime_error, so it escaped the
noexcept data() function; a partially filled buffer must not be kept either.
---
 src/mlio-py/mlio/core/py_device_array.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/py_device_array.cc b/src/mlio-py/mlio/core/py_device_array.cc
index 73e138d..31c8c24 100644
--- a/src/mlio-py/mlio/core/py_device_array.cc
+++ b/src/mlio-py/mlio/core/py_device_array.cc
@@ -50,7 +50,14 @@ void *Py_device_array::make_or_get_string_buffer()
                 string_buf_.push_back(obj.release().ptr());
             }
         }
-        catch (std::runtime_error &) {
+        catch (const std::exception &) {
+            // Do not leave a partially filled buffer behind.
+            for (py::handle obj : string_buf_) {
+                obj.dec_ref();
+            }
+
+            string_buf_.clear();
+
             PyErr_SetString(
                 PyExc_ValueError,
                 "The string Tensor contains an invalid UTF-8 sequence. Please make sure that you "
-- 
2.43.0


From a09d952b71e7a0a31fb7c86fbd907b85326d5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 05/69] fix: let Coo_tensor::indices() report an invalid
 dimension

The functions were noexcept although vector::at() throws, so an invalid
dimension ended the process.
---
 include/mlio/tensor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mlio/tensor.h b/include/mlio/tensor.h
index 22590d3..a91a9cd 100644
--- a/include/mlio/tensor.h
+++ b/include/mlio/tensor.h
@@ -157,12 +157,12 @@ public:
         return Device_array_view{*data_};
     }
 
-    Device_array_span indices(std::size_t dim) noexcept
+    Device_array_span indices(std::size_t dim)
     {
         return *coordinates_.at(dim);
     }
 
-    Device_array_view indices(std::size_t dim) const noexcept
+    Device_array_view indices(std::size_t dim) const
     {
         return *coordinates_.at(dim);
     }
-- 
2.43.0


From 268e16127a62b61dc22ea59aa51d195ee5b1d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 06/69] fix: make input streams implemented in Python usable

The overridden functions were looked up under quoted names and never found,
reading released the GIL where it has to acquire it, read(size) returned
nothing, and an exception raised by seek() ended the process.
---
 src/mlio-py/mlio/core/stream.cc | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/mlio-py/mlio/core/stream.cc b/src/mlio-py/mlio/core/stream.cc
index 711e6e4..a7052f9 100644
--- a/src/mlio-py/mlio/core/stream.cc
+++ b/src/mlio-py/mlio/core/stream.cc
@@ -58,7 +58,7 @@ std::size_t Py_input_stream::read(Mutable_memory_span destination)
 
     auto size = static_cast<py::ssize_t>(bits.size());
 
-    py::gil_scoped_release acq_gil{};
+    py::gil_scoped_acquire acq_gil{};
 
     ::PyObject *buf = ::PyMemoryView_FromMemory(bits.data(), size, PyBUF_WRITE);
     if (buf == nullptr) {
@@ -68,30 +68,29 @@ std::size_t Py_input_stream::read(Mutable_memory_span destination)
     auto holder = py::reinterpret_steal<py::object>(buf);
 
     // NOLINTNEXTLINE
-    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, "read", buf)
+    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, read, holder)
 }
 
-Memory_slice Py_input_stream::read(std::size_t)
+Memory_slice Py_input_stream::read(std::size_t size)
 {
-    return {};  // TODO(balioglu): Implement!
+    auto block = memory_allocator().allocate(size);
+
+    std::size_t num_bytes_read = read(*block);
+
+    return Memory_slice{std::move(block)}.first(num_bytes_read);
 }
 
 void Py_input_stream::seek(std::size_t position)
 {
-    try {
-        // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(void, Input_stream, "seek", position)
-    }
-    catch (...) {
-        std::terminate();
-    }
+    // NOLINTNEXTLINE
+    PYBIND11_OVERLOAD_PURE(void, Input_stream, seek, position)
 }
 
 void Py_input_stream::close() noexcept
 {
     try {
         // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(void, Input_stream, "close", )
+        PYBIND11_OVERLOAD_PURE(void, Input_stream, close, )
     }
     catch (...) {
         std::terminate();
@@ -101,20 +100,20 @@ void Py_input_stream::close() noexcept
 std::size_t Py_input_stream::size() const
 {
     // NOLINTNEXTLINE
-    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, "size", )
+    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, size, )
 }
 
 std::size_t Py_input_stream::position() const
 {
     // NOLINTNEXTLINE
-    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, "position", )
+    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, position, )
 }
 
 bool Py_input_stream::seekable() const noexcept
 {
     try {
         // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(bool, Input_stream, "seekable", )
+        PYBIND11_OVERLOAD_PURE(bool, Input_stream, seekable, )
     }
     catch (...) {
         std::terminate();
@@ -125,7 +124,7 @@ bool Py_input_stream::closed() const noexcept
 {
     try {
         // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(bool, Input_stream, "closed", )
+        PYBIND11_OVERLOAD_PURE(bool, Input_stream, closed, )
     }
     catch (...) {
         std::terminate();
-- 
2.43.0


From 9135874efdd3f99ae777ba25c0c16548449da2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 07/69] fix: release the GIL while a data reader is reset

reset() waits for the background thread, which may be waiting for the GIL to call a Python log handler.
---
 src/mlio-py/mlio/core/data_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index bc2c441..80e9c6a 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -608,6 +608,7 @@ void register_data_readers(py::module &m)
              "Returns the ``Schema`` of the dataset.")
         .def("reset",
              &Data_reader::reset,
+             py::call_guard<py::gil_scoped_release>(),
              "Resets the state of the reader. Calling ``read_example()`` the "
              "next time will start reading from the beginning of the dataset.")
         .def("__iter__",
-- 
2.43.0


From 46136fcad7b81f4f88c16cb54c06d8bc84d7fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 08/69] fix: keep an example alive while it is iterated over in
 Python

---
 src/mlio-py/mlio/core/example.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/example.cc b/src/mlio-py/mlio/core/example.cc
index d9ae92a..7f97217 100644
--- a/src/mlio-py/mlio/core/example.cc
+++ b/src/mlio-py/mlio/core/example.cc
@@ -79,7 +79,8 @@ void register_example(py::module &m)
         .def("__iter__",
              [](Example &self) {
                  return py::make_iterator(self.features().begin(), self.features().end());
-             })
+             },
+             py::keep_alive<0, 1>())
         .def("__repr__", &Example::repr)
         .def_property_readonly("schema", &Example::schema, "Gets the schema of the example.")
         .def_readwrite("padding",
-- 
2.43.0


From ad59d1022225998dc123beacbf1d4e2c1741454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 09/69] fix: expose warn_bad_instances as an attribute of
 DataReaderParams

---
 src/mlio-py/mlio/core/data_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index 80e9c6a..12453cb 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -393,6 +393,7 @@ void register_data_readers(py::module &m)
         .def_readwrite("num_parallel_reads", &Data_reader_params::num_parallel_reads)
         .def_readwrite("last_example_handling", &Data_reader_params::last_example_handling)
         .def_readwrite("bad_example_handling", &Data_reader_params::bad_example_handling)
+        .def_readwrite("warn_bad_instances", &Data_reader_params::warn_bad_instances)
         .def_readwrite("num_instances_to_skip", &Data_reader_params::num_instances_to_skip)
         .def_readwrite("num_instances_to_read", &Data_reader_params::num_instances_to_read)
         .def_readwrite("shard_index", &Data_reader_params::shard_index)
-- 
2.43.0


From c3896629cb44f7cd1dd33172c65256e48a8766e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 10/69] fix: hold the GIL while a Python buffer is released

Tensors and memory blocks that refer to a Python buffer can be destroyed by any thread, e.g. through the deleter of a DLPack tensor.
---
 src/mlio-py/mlio/core/py_buffer.cc       | 17 +++++++++++++++++
 src/mlio-py/mlio/core/py_memory_block.cc |  8 ++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index b90449a..f572949 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -46,6 +46,23 @@ public:
         : data_{data}, size_{size}, info_{std::move(info)}
     {}
 
+    Py_buffer_container(const Py_buffer_container &) = delete;
+
+    Py_buffer_container &operator=(const Py_buffer_container &) = delete;
+
+    Py_buffer_container(Py_buffer_container &&other) = default;
+
+    Py_buffer_container &operator=(Py_buffer_container &&other) = default;
+
+    ~Py_buffer_container()
+    {
+        // The container can be destroyed by a thread that does not hold
+        // the GIL (e.g. one that releases a DLPack tensor).
+        py::gil_scoped_acquire acq_gil;
+
+        info_ = py::buffer_info{};
+    }
+
 public:
     iterator begin() noexcept
     {
diff --git a/src/mlio-py/mlio/core/py_memory_block.cc b/src/mlio-py/mlio/core/py_memory_block.cc
index 9bc970a..658d402 100644
--- a/src/mlio-py/mlio/core/py_memory_block.cc
+++ b/src/mlio-py/mlio/core/py_memory_block.cc
@@ -15,15 +15,23 @@
 
 #include "py_memory_block.h"
 
+namespace py = pybind11;
+
 namespace pymlio {
 
 Py_memory_block::~Py_memory_block()
 {
+    // The block can be destroyed by a thread that does not hold the GIL.
+    py::gil_scoped_acquire acq_gil;
+
     ::PyBuffer_Release(&buffer_);
 }
 
 py_mutable_memory_block::~py_mutable_memory_block()
 {
+    // The block can be destroyed by a thread that does not hold the GIL.
+    py::gil_scoped_acquire acq_gil;
+
     ::PyBuffer_Release(&buffer_);
 }
 
-- 
2.43.0


From f6faf97f47da21a975e27315e8a8257261d574e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:48 +0000
Subject: [PATCH 11/69] fix: refer to the instance index in the message of a
 failed image resize operation

The message formatted the text of the exception as a number, which made fmt throw a format_error instead.
---
 src/mlio/image_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index cf9e9fb..7b7cb36 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -313,7 +313,7 @@ bool Image_reader::resize(cv::Mat &src, cv::Mat &dst, const Instance &instance)
     catch (const cv::Exception &e) {
         if (warn_bad_instances() || error_bad_example_) {
             auto msg = fmt::format(
-                "The image resize operation failed for the image #{2:n} in the data store '{0}' with the following exception: {2}",
+                "The image resize operation failed for the image #{1:n} in the data store '{0}' with the following exception: {2}",
                 instance.data_store().id(),
                 instance.index(),
                 e.what());
-- 
2.43.0


From dede5452e6293afa17da8eb3e41cf8db2c8d32b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 12/69] fix: report the error of the path that cannot be listed

list_files() reported errno, which can belong to another call, or be 0, when fts_read() returns the entry.
---
 src/mlio/data_stores/file_list.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mlio/data_stores/file_list.cc b/src/mlio/data_stores/file_list.cc
index 3b4b1cc..9587a1b 100644
--- a/src/mlio/data_stores/file_list.cc
+++ b/src/mlio/data_stores/file_list.cc
@@ -98,7 +98,9 @@ list_files(stdx::span<const std::string> paths, const File_list_options &opts)
     ::FTSENT *e{};
     while ((e = ::fts_read(fts.get())) != nullptr) {
         if (e->fts_info == FTS_ERR || e->fts_info == FTS_DNR || e->fts_info == FTS_NS) {
-            std::error_code err = current_error_code();
+            // The value of errno belongs to the last failed system call,
+            // which is not necessarily the one made for this entry.
+            std::error_code err{e->fts_errno, std::generic_category()};
             throw std::system_error{
                 err, fmt::format("The file or directory '{0}' cannot be opened.", e->fts_accpath)};
         }
-- 
2.43.0


From bc2a3d336e63aa1ef2d21c51eab80d8e39d67141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 13/69] fix: remove the temporary file of a memory block that
 cannot be allocated

---
 src/mlio/memory/file_backed_memory_block.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mlio/memory/file_backed_memory_block.cc b/src/mlio/memory/file_backed_memory_block.cc
index 7f62eba..ce48124 100644
--- a/src/mlio/memory/file_backed_memory_block.cc
+++ b/src/mlio/memory/file_backed_memory_block.cc
@@ -54,13 +54,19 @@ void File_backed_memory_block::make_temporary_file()
 
     fd_ = ::mkstemp(&path.front());
 
-    auto off = static_cast<::off_t>(size_);
-    if (fd_ == -1 || ::ftruncate(fd_.get(), off) != 0) {
+    if (fd_ == -1) {
         throw std::system_error{current_error_code(),
                                 "The file-backed memory block cannot be allocated."};
     }
 
+    // The file must not stay behind even if it cannot be resized.
     ::unlink(&path.front());
+
+    auto off = static_cast<::off_t>(size_);
+    if (::ftruncate(fd_.get(), off) != 0) {
+        throw std::system_error{current_error_code(),
+                                "The file-backed memory block cannot be allocated."};
+    }
 }
 
 void File_backed_memory_block::resize(size_type size)
-- 
2.43.0


From d30a17d18b366d1002c44109fbb7fb9ee2524515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 14/69] fix: do not let child processes inherit the files of
 memory blocks

---
 src/mlio/memory/file_backed_memory_block.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/memory/file_backed_memory_block.cc b/src/mlio/memory/file_backed_memory_block.cc
index ce48124..f90ecb5 100644
--- a/src/mlio/memory/file_backed_memory_block.cc
+++ b/src/mlio/memory/file_backed_memory_block.cc
@@ -19,6 +19,7 @@
 #include <cstdlib>
 #include <system_error>
 
+#include <fcntl.h>
 #include <sys/mman.h>
 #include <unistd.h>
 
@@ -52,7 +53,7 @@ void File_backed_memory_block::make_temporary_file()
 {
     std::string path{"/tmp/mlio-XXXXXX"};
 
-    fd_ = ::mkstemp(&path.front());
+    fd_ = ::mkostemp(&path.front(), O_CLOEXEC);
 
     if (fd_ == -1) {
         throw std::system_error{current_error_code(),
-- 
2.43.0


From 385d02f9c8bf7f00f0e1845177b5c78b9b72711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 15/69] fix: move a memory block to a file when its new size
 exceeds the threshold

The old size was tested, which kept large blocks on the heap and overran the file-backed block if a large block was made smaller.
---
 src/mlio/memory/file_backed_memory_allocator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/memory/file_backed_memory_allocator.cc b/src/mlio/memory/file_backed_memory_allocator.cc
index 8816f49..6be5108 100644
--- a/src/mlio/memory/file_backed_memory_allocator.cc
+++ b/src/mlio/memory/file_backed_memory_allocator.cc
@@ -77,7 +77,7 @@ void Hybrid_memory_block::resize(size_type size)
     // not true. Once we have a file-backed memory block there is no
     // need to move back to the heap; once initialized accessing a
     // file-backed memory region has no extra latency.
-    if (!file_backed_ && inner_->size() > oversize_threshold_) {
+    if (!file_backed_ && size > oversize_threshold_) {
         logger::debug(
             "The data is being moved from heap to file-backed memory block. Old size was {0:n} byte(s); new size is {1:n} bytes.",
             inner_->size(),
-- 
2.43.0


From f9e83f423c4e4030ca320dc6dd6c272708b724a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 16/69] fix: give a SageMaker pipe channel back only once

---
 src/mlio/streams/sagemaker_pipe_input_stream.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 2177c9f..db8b721 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -111,7 +111,12 @@ void Sagemaker_pipe_input_stream::close() noexcept
 {
     fifo_fd_ = {};
 
-    detail::fifo_ids_[path_].exchange(fifo_id_);
+    // Once given back the channel belongs to whoever opens it next.
+    if (fifo_id_ != -1) {
+        detail::fifo_ids_[path_].exchange(fifo_id_);
+
+        fifo_id_ = -1;
+    }
 }
 
 Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
-- 
2.43.0


From 7a0e63a3ddf47b28e2963966ad52dc916d958ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 17/69] fix: let threads open and close SageMaker pipe channels
 at the same time

---
 src/mlio/streams/sagemaker_pipe_input_stream.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index db8b721..dd09696 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -17,6 +17,7 @@
 
 #include <atomic>
 #include <cerrno>
+#include <mutex>
 #include <system_error>
 #include <thread>
 #include <unordered_map>
@@ -51,6 +52,16 @@ namespace {
 // increments the original FIFO ID and puts it back to the container.
 std::unordered_map<std::string, std::atomic_ptrdiff_t> fifo_ids_{};
 
+// Streams can be opened and closed by several threads at the same time.
+std::mutex fifo_ids_mutex_{};
+
+std::ptrdiff_t exchange_fifo_id(const std::string &path, std::ptrdiff_t fifo_id)
+{
+    std::lock_guard<std::mutex> lock{fifo_ids_mutex_};
+
+    return fifo_ids_[path].exchange(fifo_id);
+}
+
 }  // namespace
 }  // namespace detail
 
@@ -113,7 +124,7 @@ void Sagemaker_pipe_input_stream::close() noexcept
 
     // Once given back the channel belongs to whoever opens it next.
     if (fifo_id_ != -1) {
-        detail::fifo_ids_[path_].exchange(fifo_id_);
+        detail::exchange_fifo_id(path_, fifo_id_);
 
         fifo_id_ = -1;
     }
@@ -126,7 +137,7 @@ Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
 {
     detail::validate_file_path(path_);
 
-    fifo_id_ = detail::fifo_ids_[path_].exchange(-1);
+    fifo_id_ = detail::exchange_fifo_id(path_, -1);
     if (fifo_id_ == -1) {
         auto err = std::make_error_code(std::errc::permission_denied);
         throw std::system_error{err, "The SageMaker pipe channel is already open."};
-- 
2.43.0


From 1ba96bbae197d1d18aff0ce89b882fae2de93287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 18/69] fix: do not move the position of a memory stream out of
 its memory

---
 src/mlio/streams/memory_input_stream.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mlio/streams/memory_input_stream.cc b/src/mlio/streams/memory_input_stream.cc
index 3cdd1a9..9eb0674 100644
--- a/src/mlio/streams/memory_input_stream.cc
+++ b/src/mlio/streams/memory_input_stream.cc
@@ -88,7 +88,10 @@ std::size_t Memory_input_stream::position() const
 
 void Memory_input_stream::advance_position(std::size_t distance) noexcept
 {
-    pos_ = std::min(pos_ + as_ssize(distance), source_.end());
+    // The distance can be longer than what an iterator can be moved by.
+    std::size_t remaining = as_size(source_.end() - pos_);
+
+    pos_ += as_ssize(std::min(distance, remaining));
 }
 
 void Memory_input_stream::check_if_closed() const
-- 
2.43.0


From f2d92aacca007ff131757a874d597a6de49d2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 19/69] fix: do not report the end of a compressed stream while
 there is more to read

---
 src/mlio/streams/gzip_inflate_stream.cc | 39 ++++++++++++++-----------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/mlio/streams/gzip_inflate_stream.cc b/src/mlio/streams/gzip_inflate_stream.cc
index a89b3d6..a6af4b2 100644
--- a/src/mlio/streams/gzip_inflate_stream.cc
+++ b/src/mlio/streams/gzip_inflate_stream.cc
@@ -43,30 +43,35 @@ std::size_t Gzip_inflate_stream::read(Mutable_memory_span destination)
         return 0;
     }
 
-    if (buffer_pos_ == buffer_.end()) {
-        buffer_ = inner_->read(0x8'0000);  // 512 KiB
+    auto out = destination;
 
-        // Make sure to reset the position before checking whether we
-        // reached the end of the stream; otherwise the function won't
-        // behave correctly if called a second time.
-        buffer_pos_ = buffer_.begin();
+    // The inflater might consume bytes without writing anything (e.g. a
+    // header). As returning zero means the end of the stream, we have to
+    // carry on until we have at least one byte.
+    while (out.size() == destination.size()) {
+        if (buffer_pos_ == buffer_.end()) {
+            buffer_ = inner_->read(0x8'0000);  // 512 KiB
 
-        if (buffer_.empty()) {
-            if (!inflater_->eof()) {
-                throw Inflate_error{"The zlib stream contains invalid or incomplete deflate data."};
-            }
+            // Make sure to reset the position before checking whether we
+            // reached the end of the stream; otherwise the function won't
+            // behave correctly if called a second time.
+            buffer_pos_ = buffer_.begin();
 
-            return 0;
-        }
-    }
+            if (buffer_.empty()) {
+                if (!inflater_->eof()) {
+                    throw Inflate_error{"The zlib stream contains invalid or incomplete deflate data."};
+                }
 
-    Memory_span inp{buffer_pos_, buffer_.end()};
+                return 0;
+            }
+        }
 
-    auto out = destination;
+        Memory_span inp{buffer_pos_, buffer_.end()};
 
-    inflater_->inflate(inp, out);
+        inflater_->inflate(inp, out);
 
-    buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+        buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+    }
 
     return destination.size() - out.size();
 }
-- 
2.43.0


From c3178c35d2111ce95fe91c02322941253a272caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 20/69] fix: inflate buffers that are larger than zlib can
 process in one call

---
 src/mlio/streams/detail/zlib.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mlio/streams/detail/zlib.cc b/src/mlio/streams/detail/zlib.cc
index 6bc74ee..35c5bd6 100644
--- a/src/mlio/streams/detail/zlib.cc
+++ b/src/mlio/streams/detail/zlib.cc
@@ -15,7 +15,10 @@
 
 #include "mlio/streams/detail/zlib.h"
 
+#include <algorithm>
 #include <cassert>
+#include <cstddef>
+#include <limits>
 #include <new>
 
 #include "mlio/not_supported_error.h"
@@ -60,8 +63,14 @@ void Zlib_inflater::inflate(Memory_span &inp, Mutable_memory_span &out)
     stream_.next_in = const_cast<::Bytef *>(i_buf.data());
     stream_.next_out = o_buf.data();
 
-    stream_.avail_in = static_cast<::uInt>(i_buf.size());
-    stream_.avail_out = static_cast<::uInt>(o_buf.size());
+    // The buffers can be larger than what zlib can process in one call.
+    constexpr std::size_t max_size = std::numeric_limits<::uInt>::max();
+
+    auto i_size = std::min(i_buf.size(), max_size);
+    auto o_size = std::min(o_buf.size(), max_size);
+
+    stream_.avail_in = static_cast<::uInt>(i_size);
+    stream_.avail_out = static_cast<::uInt>(o_size);
 
     state_ = ::inflate(&stream_, Z_NO_FLUSH);
 
@@ -71,8 +80,8 @@ void Zlib_inflater::inflate(Memory_span &inp, Mutable_memory_span &out)
         ::inflateReset(&stream_);
     }
 
-    inp = inp.last(stream_.avail_in);
-    out = out.last(stream_.avail_out);
+    inp = inp.subspan(i_size - stream_.avail_in);
+    out = out.subspan(o_size - stream_.avail_out);
 }
 
 void Zlib_inflater::validate_state() const
-- 
2.43.0


From b9d07acb99ec64d7371dc1bd9548730d8f2457fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 21/69] fix: convert the first bytes of a short stream that is
 not seekable

---
 src/mlio/streams/utf8_input_stream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index ba3b80a..775fe4f 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -186,7 +186,7 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
 
 void Utf8_input_stream::fill_buffer()
 {
-    Mutable_memory_span buffer{buffer_pos_, buffer_end_};
+    Mutable_memory_span buffer{buffer_pos_, buffer_->end()};
 
     std::size_t num_bytes_read = detail::fill_buffer(*inner_, buffer);
 
@@ -218,7 +218,9 @@ void Utf8_input_stream::set_preamble(Memory_span value) noexcept
     else {
         // Otherwise put them into the buffer so they get converted by
         // the next call to read().
-        buffer_pos_ = std::copy(value.begin(), value.end(), buffer_->begin());
+        buffer_end_ = std::copy(value.begin(), value.end(), buffer_->begin());
+
+        should_fill_buffer_ = value.empty();
     }
 }
 
-- 
2.43.0


From fed4af124b2338fcf656afe0bf0431648517d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 22/69] fix: read an empty data store that is not memory mapped

---
 src/mlio/instance.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance.cc b/src/mlio/instance.cc
index 16a87fc..fe8b54b 100644
--- a/src/mlio/instance.cc
+++ b/src/mlio/instance.cc
@@ -15,6 +15,8 @@
 
 #include "mlio/instance.h"
 
+#include <algorithm>
+#include <cstddef>
 #include <exception>
 #include <system_error>
 
@@ -93,7 +95,8 @@ Memory_slice Instance::read_stream(Input_stream &stream) const
         }
         else {
             if (stream.seekable()) {
-                block = memory_allocator().allocate(stream.size());
+                // The block has to grow in case the stream is empty.
+                block = memory_allocator().allocate(std::max<std::size_t>(stream.size(), 1));
             }
             else {
                 block = memory_allocator().allocate(0x100000);  // 1MiB
-- 
2.43.0


From 888fe927df8c53155bb15454a1c444f0be042c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 23/69] fix: refuse to return the size and position of a closed
 S3 stream

---
 include/mlio/streams/s3_input_stream.h | 10 ++--------
 src/mlio/streams/s3_input_stream.cc    | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/mlio/streams/s3_input_stream.h b/include/mlio/streams/s3_input_stream.h
index b84f88a..a7b6e88 100644
--- a/include/mlio/streams/s3_input_stream.h
+++ b/include/mlio/streams/s3_input_stream.h
@@ -47,15 +47,9 @@ public:
 
     void close() noexcept final;
 
-    std::size_t size() const final
-    {
-        return size_;
-    }
+    std::size_t size() const final;
 
-    std::size_t position() const final
-    {
-        return position_;
-    }
+    std::size_t position() const final;
 
     bool closed() const noexcept final
     {
diff --git a/src/mlio/streams/s3_input_stream.cc b/src/mlio/streams/s3_input_stream.cc
index 3916647..e4a2d82 100644
--- a/src/mlio/streams/s3_input_stream.cc
+++ b/src/mlio/streams/s3_input_stream.cc
@@ -58,6 +58,20 @@ void S3_input_stream::close() noexcept
     closed_ = true;
 }
 
+std::size_t S3_input_stream::size() const
+{
+    check_if_closed();
+
+    return size_;
+}
+
+std::size_t S3_input_stream::position() const
+{
+    check_if_closed();
+
+    return position_;
+}
+
 S3_input_stream::S3_input_stream(Intrusive_ptr<const S3_client> client,
                                  std::string bucket,
                                  std::string key,
-- 
2.43.0


From 6cb4bf9c9f67e2b5ddc64aa7a8987dabf6fbbb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 24/69] fix: keep a carriage return and its new line together
 across chunks

---
 src/mlio/record_readers/detail/text_line.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 82de5a4..43f56dd 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -47,7 +47,9 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     auto pos = chars.begin();
 
-    for (auto chr = *pos; pos < chars.end(); ++pos, chr = *pos) {
+    for (; pos < chars.end(); ++pos) {
+        auto chr = *pos;
+
         if (chr == '\n') {
             break;
         }
@@ -55,6 +57,13 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
         if (chr == '\r') {
             auto next_pos = pos + 1;
 
+            // If the carriage is the last character of the chunk, we
+            // cannot tell yet whether it is followed by a new-line
+            // character.
+            if (next_pos == chars.end() && ignore_leftover) {
+                return {};
+            }
+
             // Check if we have a new line with a new-line character and
             // make sure that we eat the carriage in such case.
             if (next_pos < chars.end() && *next_pos == '\n') {
-- 
2.43.0


From 9cd3558c972b0d21c820820ff112e74f0d5e6c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 25/69] fix: do not take bytes within a text file for its byte
 order mark

---
 include/mlio/record_readers/text_record_reader.h |  3 +++
 src/mlio/record_readers/text_record_reader.cc    | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/mlio/record_readers/text_record_reader.h b/include/mlio/record_readers/text_record_reader.h
index a8b8da1..41973c6 100644
--- a/include/mlio/record_readers/text_record_reader.h
+++ b/include/mlio/record_readers/text_record_reader.h
@@ -52,6 +52,9 @@ private:
 
     MLIO_HIDDEN
     static bool skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept;
+
+    // Only the beginning of a stream can have a BOM.
+    bool has_skipped_bom_{};
 };
 
 /// @}
diff --git a/src/mlio/record_readers/text_record_reader.cc b/src/mlio/record_readers/text_record_reader.cc
index 66e6a2f..ca20e26 100644
--- a/src/mlio/record_readers/text_record_reader.cc
+++ b/src/mlio/record_readers/text_record_reader.cc
@@ -35,11 +35,15 @@ std::optional<Record> Text_record_reader::decode_record(Memory_slice &chunk, boo
         return {};
     }
 
-    if (skip_utf8_bom(chunk, ignore_leftover)) {
-        return decode_text_record(chunk, ignore_leftover);
+    if (!has_skipped_bom_) {
+        if (!skip_utf8_bom(chunk, ignore_leftover)) {
+            return {};
+        }
+
+        has_skipped_bom_ = true;
     }
 
-    return {};
+    return decode_text_record(chunk, ignore_leftover);
 }
 
 bool Text_record_reader::skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept
-- 
2.43.0


From 993edbebb13dbc79a7a3fa2cd00bdbdf16c9b3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 26/69] fix: name the last data store when the dataset ends
 within a split record

---
 src/mlio/instance_readers/core_instance_reader.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mlio/instance_readers/core_instance_reader.cc b/src/mlio/instance_readers/core_instance_reader.cc
index c70c0a9..7c5897b 100644
--- a/src/mlio/instance_readers/core_instance_reader.cc
+++ b/src/mlio/instance_readers/core_instance_reader.cc
@@ -69,35 +69,39 @@ std::optional<Instance> Core_instance_reader::read_instance_core()
 
 void Core_instance_reader::handle_errors()
 {
+    // If we have reached the end of the dataset (e.g. in the middle of a
+    // split record), the error is about the last data store.
+    const Data_store &store = store_ != nullptr ? *store_ : *params_->dataset.back();
+
     try {
         throw;
     }
     catch (const Record_too_large_error &) {
         std::throw_with_nested(Data_reader_error{fmt::format(
             "The record #{1:n} in the data store '{0}' is too large. See nested exception for details.",
-            store_->id(),
+            store.id(),
             record_idx_)});
     }
     catch (const Corrupt_record_error &) {
         std::throw_with_nested(Data_reader_error{fmt::format(
             "The record #{1:n} in the data store '{0}' is corrupt. See nested exception for details.",
-            store_->id(),
+            store.id(),
             record_idx_)});
     }
     catch (const Stream_error &) {
         std::throw_with_nested(Data_reader_error{fmt::format(
             "The data store '{0}' contains corrupt data. See nested exception for details.",
-            store_->id())});
+            store.id())});
     }
     catch (const Not_supported_error &) {
         std::throw_with_nested(Data_reader_error{
             fmt::format("The data store '{0}' cannot be read. See nested exception for details.",
-                        store_->id())});
+                        store.id())});
     }
     catch (const std::system_error &) {
         std::throw_with_nested(Data_reader_error{fmt::format(
             "A system error occurred while trying to read from the data store '{0}'. See nested exception for details.",
-            store_->id())});
+            store.id())});
     }
 }
 
-- 
2.43.0


From 16b433e87e89186438cf4e50ce36a9d82e71f0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:06 +0000
Subject: [PATCH 27/69] fix: pad the last example when the caller asks to be
 warned about it

---
 src/mlio/instance_batch_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance_batch_reader.cc b/src/mlio/instance_batch_reader.cc
index 84e1917..9ece789 100644
--- a/src/mlio/instance_batch_reader.cc
+++ b/src/mlio/instance_batch_reader.cc
@@ -75,7 +75,8 @@ std::optional<Instance_batch> Instance_batch_reader::read_instance_batch()
     }
 
     std::size_t size{};
-    if (params_->last_example_handling == Last_example_handling::pad) {
+    if (params_->last_example_handling == Last_example_handling::pad ||
+        params_->last_example_handling == Last_example_handling::pad_warn) {
         size = params_->batch_size;
     }
     else {
-- 
2.43.0


From 83dda37580138f0c411a3fc085effb93959c3c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 28/69] fix: drop the sparse features of a bad instance instead
 of leaving them in the example

---
 src/mlio/coo_tensor_builder.cc       | 20 ++++++++++++++++++++
 src/mlio/coo_tensor_builder.h        | 15 +++++++++++++++
 src/mlio/recordio_protobuf_reader.cc |  8 ++++++++
 3 files changed, 43 insertions(+)

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index fb514e7..a2a6af5 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -15,6 +15,8 @@
 
 #include "mlio/coo_tensor_builder.h"
 
+#include <algorithm>
+
 #include "mlio/util/cast.h"
 
 namespace mlio {
@@ -73,6 +75,24 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
     return true;
 }
 
+std::size_t Coo_tensor_builder::truncate_indices(std::size_t row_idx)
+{
+    // The coordinates of the batch dimension are in ascending order.
+    std::vector<std::size_t> &rows = coordinates_[0];
+
+    auto pos = std::lower_bound(rows.begin(), rows.end(), row_idx);
+
+    auto size = as_size(pos - rows.begin());
+
+    for (std::vector<std::size_t> &coordinates : coordinates_) {
+        coordinates.resize(size);
+    }
+
+    row_idx_ = row_idx;
+
+    return size;
+}
+
 Intrusive_ptr<Tensor> Coo_tensor_builder::build_core(std::unique_ptr<Device_array> &&data)
 {
     // Wrap index lists into device arrays.
diff --git a/src/mlio/coo_tensor_builder.h b/src/mlio/coo_tensor_builder.h
index 9f4d3d8..1a208d6 100644
--- a/src/mlio/coo_tensor_builder.h
+++ b/src/mlio/coo_tensor_builder.h
@@ -47,11 +47,18 @@ public:
 
     virtual ~Coo_tensor_builder();
 
+    /// Discards the values that were appended for the specified row and
+    /// for the rows after it.
+    virtual void truncate(std::size_t row_idx) = 0;
+
     virtual Intrusive_ptr<Tensor> build() = 0;
 
 protected:
     bool append_indices(stdx::span<const std::uint64_t> indices);
 
+    /// Returns the number of values that are left.
+    std::size_t truncate_indices(std::size_t row_idx);
+
     Intrusive_ptr<Tensor> build_core(std::unique_ptr<Device_array> &&data);
 
 private:
@@ -70,6 +77,8 @@ public:
 
     bool append(stdx::span<const value_type> values, stdx::span<const std::uint64_t> indices);
 
+    void truncate(std::size_t row_idx) final;
+
     Intrusive_ptr<Tensor> build() final;
 
 private:
@@ -85,6 +94,12 @@ bool Coo_tensor_builder_impl<dt>::append(stdx::span<const value_type> values,
     return append_indices(indices);
 }
 
+template<Data_type dt>
+void Coo_tensor_builder_impl<dt>::truncate(std::size_t row_idx)
+{
+    data_.resize(truncate_indices(row_idx));
+}
+
 template<Data_type dt>
 Intrusive_ptr<Tensor> Coo_tensor_builder_impl<dt>::build()
 {
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index f9a5d4b..96ab77e 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -361,6 +361,14 @@ Recordio_protobuf_reader::decode_serial(Decoder_state &state, const Instance_bat
                 params().bad_example_handling != Bad_example_handling::pad_warn) {
                 throw std::invalid_argument{"The specified bad example handling is invalid."};
             }
+
+            // Discard the sparse features that were already read from
+            // the bad instance.
+            for (auto &builder : state.coo_tensor_builders) {
+                if (builder != nullptr) {
+                    builder->truncate(row_idx);
+                }
+            }
         }
     }
 
-- 
2.43.0


From f1125c0c039978753b96fcf51238711ed72488cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 29/69] fix: handle a CSV row that cannot be read as a bad
 instance

---
 src/mlio/csv_reader.cc | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 3177993..a8ccff4 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -73,6 +73,8 @@ public:
     bool decode(std::size_t row_idx, const Instance &instance);
 
 private:
+    bool decode_core(std::size_t row_idx, const Instance &instance);
+
     Decoder_state *state_;
     Csv_record_tokenizer *tokenizer_;
     Col_iter col_beg_;
@@ -625,6 +627,32 @@ Csv_reader::Decoder_state::Decoder_state(const Csv_reader &r,
 
 template<typename Col_iter>
 bool Csv_reader::Decoder<Col_iter>::decode(std::size_t row_idx, const Instance &instance)
+{
+    try {
+        return decode_core(row_idx, instance);
+    }
+    catch (const Corrupt_record_error &e) {
+        if (state_->warn_bad_instance || state_->error_bad_example) {
+            auto msg = fmt::format("The row #{1:n} in the data store '{0}' cannot be read: {2}",
+                                   instance.data_store().id(),
+                                   instance.index(),
+                                   e.what());
+
+            if (state_->warn_bad_instance) {
+                logger::warn(msg);
+            }
+
+            if (state_->error_bad_example) {
+                std::throw_with_nested(Invalid_instance_error{msg});
+            }
+        }
+    }
+
+    return false;
+}
+
+template<typename Col_iter>
+bool Csv_reader::Decoder<Col_iter>::decode_core(std::size_t row_idx, const Instance &instance)
 {
     auto col_pos = col_beg_;
 
-- 
2.43.0


From f3c57d897e0c464d0c31b97d50adda237c7c4ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 30/69] fix: report an image with an unexpected number of
 channels as a bad instance

---
 src/mlio/image_reader.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 7b7cb36..3ca7195 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -281,11 +281,23 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
     }
 
     if (mode == cv::ImreadModes::IMREAD_UNCHANGED && decoded_img.channels() != 4) {
-        throw std::invalid_argument{fmt::format(
-            "The image #{1:n} in the data store '{0}' contains {2:n} channels while it is expected to contain 4 channels.",
-            instance.data_store().id(),
-            instance.index(),
-            decoded_img.channels())};
+        if (warn_bad_instances() || error_bad_example_) {
+            auto msg = fmt::format(
+                "The image #{1:n} in the data store '{0}' contains {2:n} channels while it is expected to contain 4 channels.",
+                instance.data_store().id(),
+                instance.index(),
+                decoded_img.channels());
+
+            if (warn_bad_instances()) {
+                logger::warn(msg);
+            }
+
+            if (error_bad_example_) {
+                throw Invalid_instance_error{msg};
+            }
+        }
+
+        return {};
     }
 
     return decoded_img;
-- 
2.43.0


From 64560815bd2f76a4a0cdcebabbda07b145e3e80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 31/69] fix: report an image without its RecordIO header as a
 bad instance

---
 src/mlio/image_reader.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 3ca7195..f8824a1 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -157,6 +157,25 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
 {
     Memory_slice img_buf{};
     if (params_.image_frame == Image_frame::recordio) {
+        if (instance.bits().size() < recordio_image_header_offset_) {
+            if (warn_bad_instances() || error_bad_example_) {
+                auto msg = fmt::format(
+                    "The image #{1:n} in the data store '{0}' has no RecordIO image header.",
+                    instance.data_store().id(),
+                    instance.index());
+
+                if (warn_bad_instances()) {
+                    logger::warn(msg);
+                }
+
+                if (error_bad_example_) {
+                    throw Invalid_instance_error{msg};
+                }
+            }
+
+            return false;
+        }
+
         // Skip the 24-byte header defined in image_recordio.h in the
         // MXNet GitHub repository. This header contains metadata and
         // is not relevant in our implementation.
-- 
2.43.0


From a8f5ef1aeaf5e565ea6fbc692e2eadbeff24e935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 32/69] fix: name the sparsity of a feature and of its
 attribute the right way round

---
 src/mlio/recordio_protobuf_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 96ab77e..02057e4 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -660,11 +660,11 @@ bool Recordio_protobuf_reader::Decoder::decode_feature(const Protobuf_tensor &te
             const char *ft{};
             if (attr_->sparse()) {
                 ft =
-                    "The feature '{2}' of the instance #{1:n} in the data store '{0}' is sparse while it is expected to be dense.";
+                    "The feature '{2}' of the instance #{1:n} in the data store '{0}' is dense while it is expected to be sparse.";
             }
             else {
                 ft =
-                    "The feature '{2}' of the instance #{1:n} in the data store '{0}' is dense while it is expected to be sparse.";
+                    "The feature '{2}' of the instance #{1:n} in the data store '{0}' is sparse while it is expected to be dense.";
             }
             auto msg =
                 fmt::format(ft, instance_->data_store().id(), instance_->index(), attr_->name());
-- 
2.43.0


From 1cd3558e74a8bb4f37cdf608d4f8810145fa8448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 33/69] fix: report a whole data store that cannot be read as a
 data reader error

---
 src/mlio/instance.cc | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/mlio/instance.cc b/src/mlio/instance.cc
index fe8b54b..4edf272 100644
--- a/src/mlio/instance.cc
+++ b/src/mlio/instance.cc
@@ -53,29 +53,31 @@ Memory_slice Instance::load_bits_from_store() const
                 "The permission to read the data store '{0}' is denied.", store_->id())};
         }
 
-        throw;
+        handle_errors();
+    }
+    catch (const std::exception &) {
+        handle_errors();
     }
 
-    if (stream->supports_zero_copy()) {
-        Memory_slice bits{};
-        try {
-            bits = stream->read(stream->size());
-        }
-        catch (const std::exception &) {
-            handle_errors();
-        }
+    try {
+        if (stream->supports_zero_copy()) {
+            Memory_slice bits = stream->read(stream->size());
 
-        // Although this shouldn't happen, make sure we have read all
-        // the data.
-        if (bits.size() == stream->size()) {
-            return bits;
+            // Although this shouldn't happen, make sure we have read all
+            // the data.
+            if (bits.size() == stream->size()) {
+                return bits;
+            }
+
+            // Otherwise treat the stream as seekable.
+            stream->seek(0);
         }
 
-        // Otherwise treat the stream as seekable.
-        stream->seek(0);
+        return read_stream(*stream);
+    }
+    catch (const std::exception &) {
+        handle_errors();
     }
-
-    return read_stream(*stream);
 }
 
 Memory_slice Instance::read_stream(Input_stream &stream) const
-- 
2.43.0


From e5a20c1b7dc99a5dc062f07009fd7abb563014fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 34/69] fix: reject the keys of a sparse feature that has no
 elements instead of dividing by zero

---
 src/mlio/coo_tensor_builder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index a2a6af5..78a8751 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -55,6 +55,12 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
         for (auto zip_pos = zip_beg; zip_pos < zip_end; ++zip_pos) {
             std::size_t stride = as_size(std::get<1>(*zip_pos));
 
+            // A feature that has a dimension of size zero has no elements;
+            // therefore no index can be valid.
+            if (stride == 0) {
+                return false;
+            }
+
             std::size_t dim_idx = idx / stride;
 
             // Make sure that the index is within the dimension.
-- 
2.43.0


From 8457304c205a984bdfee70e089ec01faf4e06d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 35/69] fix: treat an instance with two features of the same
 name as bad

---
 src/mlio/recordio_protobuf_reader.cc | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 02057e4..6b5a437 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -103,6 +103,7 @@ private:
     std::size_t row_idx_{};
     std::size_t attr_idx_{};
     const Attribute *attr_{};
+    std::vector<bool> attrs_read_{};
 };
 
 Recordio_protobuf_reader::Recordio_protobuf_reader(Data_reader_params params)
@@ -497,6 +498,8 @@ bool Recordio_protobuf_reader::Decoder::decode(std::size_t row_idx, const Instan
 
     std::size_t num_features_read = 0;
 
+    attrs_read_.assign(state_->reader->schema()->attributes().size(), false);
+
     for (auto &[label, value] : proto_msg->label()) {
         if (!decode_feature("label_" + label, value)) {
             return false;
@@ -596,6 +599,30 @@ bool Recordio_protobuf_reader::Decoder::decode_feature(const std::string &name,
 
     attr_ = &schema->attributes()[attr_idx_];
 
+    // A label and a feature of an instance can refer to the same
+    // attribute as the names of the labels are prefixed.
+    if (attrs_read_[attr_idx_]) {
+        if (state_->warn_bad_instance || state_->error_bad_example) {
+            auto msg = fmt::format(
+                "The instance #{1:n} in the data store '{0}' has more than one feature named '{2}'.",
+                instance_->data_store().id(),
+                instance_->index(),
+                name);
+
+            if (state_->warn_bad_instance) {
+                logger::warn(msg);
+            }
+
+            if (state_->error_bad_example) {
+                throw Invalid_instance_error{msg};
+            }
+        }
+
+        return false;
+    }
+
+    attrs_read_[attr_idx_] = true;
+
     switch (value.value_case()) {
     case aialgs::data::Value::ValueCase::kFloat32Tensor:
         return decode_feature<Data_type::float32>(value.float32_tensor());
-- 
2.43.0


From 801dbdd0869e9aa0064eb217484b737ca16a0b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 36/69] fix: do not parse the truncated beginning of a protobuf
 message that is larger than 2 GiB

---
 src/mlio/recordio_protobuf_reader.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 6b5a437..80f7728 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -423,8 +423,13 @@ Recordio_protobuf_reader::decode_parallel(Decoder_state &state, const Instance_b
 
 const aialgs::data::Record *Recordio_protobuf_reader::parse_proto(const Instance &instance)
 {
-    bool parsed = detail::proto_msg_.ParseFromArray(instance.bits().data(),
-                                                    static_cast<int>(instance.bits().size()));
+    // The size of a protobuf message is limited to 2 GiB.
+    int size{};
+    if (!try_narrow(instance.bits().size(), size)) {
+        return nullptr;
+    }
+
+    bool parsed = detail::proto_msg_.ParseFromArray(instance.bits().data(), size);
 
     return parsed ? &detail::proto_msg_ : nullptr;
 }
-- 
2.43.0


From e213b3704b67ca3625b074c8a9696a91e8e55dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 37/69] fix: Image_reader keep the alpha channel when
 converting BGR to RGB

COLOR_BGR2RGB turns a four-channel image into a three-channel one. Copying
it to the tensor then reallocates the destination and leaves the memory of
the tensor uninitialized.
---
 src/mlio/image_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index f8824a1..9192ac8 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -226,7 +226,9 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
 
     if (params_.to_rgb && tmp.channels() != 1) {
         try {
-            cv::cvtColor(tmp, tmp, cv::COLOR_BGR2RGB);
+            // The conversion has to preserve the number of channels.
+            cv::cvtColor(
+                tmp, tmp, tmp.channels() == 4 ? cv::COLOR_BGRA2RGBA : cv::COLOR_BGR2RGB);
         }
         catch (const cv::Exception &e) {
             if (warn_bad_instances() || error_bad_example_) {
-- 
2.43.0


From 7f163f5baf27f5637e9ebb5826ab66538a1f44c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 38/69] fix: Image_reader reject four-channel images that do
 not have 8 bits per channel

Copying such an image to the tensor reallocates the destination and leaves
the memory of the tensor uninitialized.
---
 src/mlio/image_reader.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 9192ac8..b1a1011 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -321,6 +321,26 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
         return {};
     }
 
+    // With IMREAD_UNCHANGED the image also keeps its depth (e.g. 16 bits).
+    if (decoded_img.depth() != CV_8U) {
+        if (warn_bad_instances() || error_bad_example_) {
+            auto msg = fmt::format(
+                "The image #{1:n} in the data store '{0}' does not have 8 bits per channel.",
+                instance.data_store().id(),
+                instance.index());
+
+            if (warn_bad_instances()) {
+                logger::warn(msg);
+            }
+
+            if (error_bad_example_) {
+                throw Invalid_instance_error{msg};
+            }
+        }
+
+        return {};
+    }
+
     return decoded_img;
 }
 
-- 
2.43.0


From d2282315a5571f87cb393aff46826f59ccc98484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 39/69] fix: Dense_tensor check the extent of the elements
 without overflow

The calculation of the last index wrapped around for large shapes and
strides, accepted negative strides although their elements are located
before the data array, and rejected tensors without elements.
---
 src/mlio/tensor.cc | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index fcfd1b6..cde63a2 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -15,7 +15,7 @@
 
 #include "mlio/tensor.h"
 
-#include <cstdlib>
+#include <cstddef>
 #include <stdexcept>
 
 #include <fmt/format.h>
@@ -99,17 +99,45 @@ void Dense_tensor::validate_data_size() const
         return;
     }
 
+    // A tensor that has no elements requires no data.
+    for (std::size_t dim : shape()) {
+        if (dim == 0) {
+            return;
+        }
+    }
+
     auto stride_pos = strides().begin();
 
-    std::size_t last_idx = 0;
+    // The index of the last element must not be beyond the data array.
+    // Instead of calculating it, which can overflow, we subtract the
+    // extent of each dimension from the number of indices available.
+    bool valid = data_->size() > 0;
+
+    std::size_t remaining = valid ? data_->size() - 1 : 0;
+
     for (std::size_t dim : shape()) {
-        last_idx += (dim - 1) * as_size(std::abs(*stride_pos));
+        if (dim > 1) {
+            // With a negative stride the elements would be located
+            // before the beginning of the data array.
+            if (*stride_pos < 0) {
+                valid = false;
+            }
+            else if (*stride_pos > 0) {
+                auto stride = as_size(*stride_pos);
+
+                if (dim - 1 > remaining / stride) {
+                    valid = false;
+                }
+                else {
+                    remaining -= (dim - 1) * stride;
+                }
+            }
+        }
 
         ++stride_pos;
     }
 
-    std::size_t expected_size = last_idx + 1;
-    if (expected_size > data_->size()) {
+    if (!valid) {
         throw std::invalid_argument{
             "The size of the data array does not match the specified shape."};
     }
-- 
2.43.0


From 146de61541f128580a896161a80b3377a0f5b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 40/69] fix: Csr_tensor do not use the index pointer array
 after moving it

The constructor dereferenced a null pointer for every tensor.
---
 src/mlio/tensor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index cde63a2..b6077f8 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -209,7 +209,7 @@ Csr_tensor::Csr_tensor(Size_vector shape,
         num_rows = shp[0];
     }
 
-    if (indptr->size() != num_rows + 1) {
+    if (indptr_->size() != num_rows + 1) {
         throw std::invalid_argument{
             "The size of the index pointer array does not match the size of the row dimension."};
     }
-- 
2.43.0


From e9deb185e44d490245ad7f7c6a87bfa68bd644f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 41/69] fix: mlio.integ.numpy derive the strides of a tensor
 from the item size

The strides were calculated as if every element had eight bytes; the
elements of tensors with other data types were mixed up.
---
 src/mlio-py/mlio/integ/numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/integ/numpy.py b/src/mlio-py/mlio/integ/numpy.py
index 74ac5c7..f7a337a 100644
--- a/src/mlio-py/mlio/integ/numpy.py
+++ b/src/mlio-py/mlio/integ/numpy.py
@@ -48,7 +48,7 @@ def as_tensor(arr):
 
     return DenseTensor(arr.shape,
                        data=arr,
-                       strides=tuple(s // 8 for s in arr.strides),
+                       strides=tuple(s // arr.itemsize for s in arr.strides),
                        copy=False)
 
 
@@ -58,4 +58,4 @@ def to_tensor(arr):
     """
     return DenseTensor(arr.shape,
                        data=arr,
-                       strides=tuple(s // 8 for s in arr.strides))
+                       strides=tuple(s // arr.itemsize for s in arr.strides))
-- 
2.43.0


From 3d4abfc2b60f6ec600031bb4b7caaa16b7a3ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 42/69] fix: mlio.integ.scipy support one-dimensional tensors

A one-dimensional tensor has no indices for a second dimension, so
converting it raised an IndexError.
---
 src/mlio-py/mlio/integ/scipy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/integ/scipy.py b/src/mlio-py/mlio/integ/scipy.py
index f77556d..41fd0fe 100644
--- a/src/mlio-py/mlio/integ/scipy.py
+++ b/src/mlio-py/mlio/integ/scipy.py
@@ -31,12 +31,16 @@ def to_coo_matrix(tensor):
         raise ValueError("Only one- and two-dimensional COO tensors are "
                          "supported.")
 
+    data = np.array(tensor.data, copy=False)
+
     if len(s) == 1:
         s = (1,) + s
 
-    data = np.array(tensor.data, copy=False)
-    rows = np.array(tensor.indices(0), copy=False)
-    cols = np.array(tensor.indices(1), copy=False)
+        cols = np.array(tensor.indices(0), copy=False)
+        rows = np.zeros_like(cols)
+    else:
+        rows = np.array(tensor.indices(0), copy=False)
+        cols = np.array(tensor.indices(1), copy=False)
 
     return coo_matrix((data, (rows, cols)), s, copy=True)
 
-- 
2.43.0


From 2fa0da826fd1c3284fed5ab43605795a22d04af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 43/69] fix: make_device_array reject Python buffers that are
 not contiguous

The items are read one after the other from the beginning of the buffer,
which yields other items, or memory beyond the buffer, if it has gaps or
zero or negative strides.
---
 src/mlio-py/mlio/core/py_buffer.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index f572949..b88d779 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -290,6 +290,31 @@ struct Make_cpu_array_op<Data_type::string> {
     }
 };
 
+// Indicates whether the items of the buffer, in any order, fill a memory
+// region that begins at the buffer's pointer.
+bool is_dense(const py::buffer_info &info) noexcept
+{
+    if (info.size == 0) {
+        return true;
+    }
+
+    py::ssize_t num_items = 1;
+
+    for (std::size_t i = 0; i < info.shape.size(); i++) {
+        if (info.shape[i] == 1) {
+            continue;
+        }
+
+        if (info.strides[i] <= 0) {
+            return false;
+        }
+
+        num_items += (info.shape[i] - 1) * (info.strides[i] / info.itemsize);
+    }
+
+    return num_items == info.size;
+}
+
 }  // namespace
 
 std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy)
@@ -303,6 +328,10 @@ std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy)
         throw std::invalid_argument{"The Python buffer contains an unsupported data type."};
     }
 
+    if (!is_dense(info)) {
+        throw std::invalid_argument{"The Python buffer is not contiguous."};
+    }
+
     return dispatch<Make_cpu_array_op>(*dt, std::move(info), cpy);
 }
 
-- 
2.43.0


From 83816bc5f789d0a8b44b774be7c5ebb3af4737d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:23 +0000
Subject: [PATCH 44/69] fix: Example reject a null schema and null features

Example(None, ...) of the Python API, and printing an example that has
a None feature, crashed the interpreter.
---
 src/mlio/example.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mlio/example.cc b/src/mlio/example.cc
index a0b173f..0869c56 100644
--- a/src/mlio/example.cc
+++ b/src/mlio/example.cc
@@ -32,6 +32,16 @@ inline namespace abi_v1 {
 Example::Example(Intrusive_ptr<const Schema> schema, std::vector<Intrusive_ptr<Tensor>> &&features)
     : schema_{std::move(schema)}, features_{std::move(features)}
 {
+    if (schema_ == nullptr) {
+        throw std::invalid_argument{"The schema of an example cannot be null."};
+    }
+
+    for (auto &feature : features_) {
+        if (feature == nullptr) {
+            throw std::invalid_argument{"The features of an example cannot be null."};
+        }
+    }
+
     if (schema_->attributes().size() != features_.size()) {
         throw std::invalid_argument{
             "The number of attributes does not match the number of specified features."};
-- 
2.43.0


From 90ba9c3b1e8ccc8022be7c15593c47665395e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:00 +0000
Subject: [PATCH 45/69] fix: do not let Python code alter the attributes of a
 schema

Schema.attributes returned a mutable view of the C++ vector, so a
schema could end up with attributes that its index does not know, or
with two of the same name.
---
 src/mlio-py/mlio/core/schema.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/schema.cc b/src/mlio-py/mlio/core/schema.cc
index 3137ce6..1c970a3 100644
--- a/src/mlio-py/mlio/core/schema.cc
+++ b/src/mlio-py/mlio/core/schema.cc
@@ -92,7 +92,10 @@ void register_schema(py::module &m)
                  return std::hash<Schema>{}(self);
              })
         .def("__repr__", &Schema::repr)
-        .def_property_readonly("attributes", &Schema::attributes);
+        .def_property_readonly("attributes", [](Schema &self) {
+            // A reference would let Python code alter the schema.
+            return std::vector<Attribute>{self.attributes()};
+        });
 }
 
 }  // namespace pymlio
-- 
2.43.0


From c36f11294dcbc4e7b50329b2be1065f50cf6645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 46/69] fix: let Python code read and change the encoding of
 CsvParams

The attribute was bound with the type Text_encoding, which is not known to
Python, so that every access raised a TypeError.
---
 src/mlio-py/mlio/core/data_reader.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index 12453cb..17bbccd 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -533,7 +533,22 @@ void register_data_readers(py::module &m)
         .def_readwrite("comment_char", &Csv_params::comment_char)
         .def_readwrite("allow_quoted_new_lines", &Csv_params::allow_quoted_new_lines)
         .def_readwrite("skip_blank_lines", &Csv_params::skip_blank_lines)
-        .def_readwrite("encoding", &Csv_params::encoding)
+        .def_property(
+            "encoding",
+            [](const Csv_params &self) -> std::optional<std::string> {
+                if (self.encoding) {
+                    return self.encoding->name();
+                }
+                return {};
+            },
+            [](Csv_params &self, std::optional<std::string> encoding) {
+                if (encoding) {
+                    self.encoding = Text_encoding{std::move(*encoding)};
+                }
+                else {
+                    self.encoding = std::nullopt;
+                }
+            })
         .def_readwrite("max_field_length", &Csv_params::max_field_length)
         .def_readwrite("max_field_length_handling", &Csv_params::max_field_length_handling)
         .def_readwrite("max_line_length", &Csv_params::max_line_length)
-- 
2.43.0


From df6179f55eeef52d5c1984ca8b180088d8f513f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 47/69] fix: do not let Python code write to memory slices and
 records

They are views of constant memory, that of a file mapped for reading for
example, and a write terminated the process.
---
 src/mlio-py/mlio/core/memory.cc        | 3 +--
 src/mlio-py/mlio/core/record_reader.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/core/memory.cc b/src/mlio-py/mlio/core/memory.cc
index 3c06eda..95944a5 100644
--- a/src/mlio-py/mlio/core/memory.cc
+++ b/src/mlio-py/mlio/core/memory.cc
@@ -30,8 +30,7 @@ void register_memory_slice(py::module &m)
 
             auto size = static_cast<py::ssize_t>(self.size());
 
-            // TODO(balioglu): Make read-only.
-            return py::buffer_info(data, 1, "B", size);
+            return py::buffer_info(data, 1, "B", size, /*readonly=*/true);
         });
 }
 
diff --git a/src/mlio-py/mlio/core/record_reader.cc b/src/mlio-py/mlio/core/record_reader.cc
index e372a66..ecfb0ac 100644
--- a/src/mlio-py/mlio/core/record_reader.cc
+++ b/src/mlio-py/mlio/core/record_reader.cc
@@ -72,8 +72,7 @@ void register_record_readers(py::module &m)
 
             auto size = static_cast<py::ssize_t>(r.payload().size());
 
-            // TODO(balioglu): Make read-only.
-            return py::buffer_info(data, 1, "B", size);
+            return py::buffer_info(data, 1, "B", size, /*readonly=*/true);
         });
 
     py::class_<Py_record_iterator>(m, "RecordIterator")
-- 
2.43.0


From 636b6413c22db30200c7fde00df45a37cbab018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 48/69] fix: release the GIL while reading from a stream

---
 src/mlio-py/mlio/core/stream.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/stream.cc b/src/mlio-py/mlio/core/stream.cc
index a7052f9..d2a3252 100644
--- a/src/mlio-py/mlio/core/stream.cc
+++ b/src/mlio-py/mlio/core/stream.cc
@@ -151,7 +151,10 @@ void register_streams(py::module &m)
              &read_input_stream,
              "buf"_a,
              "Fills the specified buffer with data read from the stream.")
-        .def("read", py::overload_cast<std::size_t>(&Input_stream::read), "size"_a)
+        .def("read",
+             py::overload_cast<std::size_t>(&Input_stream::read),
+             py::call_guard<py::gil_scoped_release>(),
+             "size"_a)
         .def("seek",
              &Input_stream::seek,
              "position"_a,
-- 
2.43.0


From cc8d49ded7b751b3baf220fd0ebc9ef3f0aa9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 49/69] fix: release the GIL while analyzing a dataset

---
 src/mlio-py/mlio/contrib/insights/module.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mlio-py/mlio/contrib/insights/module.cc b/src/mlio-py/mlio/contrib/insights/module.cc
index 105fee3..c94632a 100644
--- a/src/mlio-py/mlio/contrib/insights/module.cc
+++ b/src/mlio-py/mlio/contrib/insights/module.cc
@@ -170,6 +170,7 @@ PYBIND11_MODULE(insights, m)
 
     m.def("analyze_dataset",
           &analyze_dataset,
+          py::call_guard<py::gil_scoped_release>(),
           "reader"_a,
           "null_like_values"_a,
           "capture_columns"_a,
-- 
2.43.0


From 183bb8ae46a25fb61335a039f36b127bb5acaa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 50/69] fix: give every Python data store its own id

The reference conversion of pybind11 uses a buffer that all data stores
share, therefore two different data stores compared equal.
---
 src/mlio-py/mlio/core/data_store.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_store.cc b/src/mlio-py/mlio/core/data_store.cc
index 837042e..9a51d7c 100644
--- a/src/mlio-py/mlio/core/data_store.cc
+++ b/src/mlio-py/mlio/core/data_store.cc
@@ -36,6 +36,11 @@ public:
 
 public:
     const std::string &id() const noexcept override;
+
+private:
+    std::string py_id() const;
+
+    mutable std::string id_{};
 };
 
 Intrusive_ptr<Input_stream> Py_data_store::open_read() const
@@ -56,14 +61,27 @@ std::string Py_data_store::repr() const
 const std::string &Py_data_store::id() const noexcept
 {
     try {
-        // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(const std::string &, Data_store, id, )
+        // The conversion of a reference would use a buffer that all data
+        // stores share; therefore each data store keeps its own id.
+        py::gil_scoped_acquire acq_gil;
+
+        if (id_.empty()) {
+            id_ = py_id();
+        }
+
+        return id_;
     }
     catch (...) {
         std::terminate();
     }
 }
 
+std::string Py_data_store::py_id() const
+{
+    // NOLINTNEXTLINE
+    PYBIND11_OVERLOAD_PURE_NAME(std::string, Data_store, "id", id, )
+}
+
 Intrusive_ptr<In_memory_store> make_in_memory_store(const py::buffer &buf, Compression compression)
 {
     return make_intrusive<In_memory_store>(make_intrusive<Py_memory_block>(buf), compression);
-- 
2.43.0


From 7d347634621607c3a3c5a476f562aa7fe2c6033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:53 +0000
Subject: [PATCH 51/69] fix: release the old object of an assignment to an
 Intrusive_ptr last

The old object can own the pointer that is assigned (e.g. head = head->next),
which led to a use after free.
---
 include/mlio/intrusive_ptr.h | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/include/mlio/intrusive_ptr.h b/include/mlio/intrusive_ptr.h
index 08d2d85..dd831b7 100644
--- a/include/mlio/intrusive_ptr.h
+++ b/include/mlio/intrusive_ptr.h
@@ -61,9 +61,7 @@ public:
 
     Intrusive_ptr &operator=(std::nullptr_t) noexcept
     {
-        decrement_ref_count();
-
-        ptr_ = nullptr;
+        replace(nullptr);
 
         return *this;
     }
@@ -103,9 +101,7 @@ public:
 
     Intrusive_ptr &operator=(Intrusive_ptr &&other) noexcept
     {
-        move_assign(other.ptr_);
-
-        other.ptr_ = nullptr;
+        replace(other.release());
 
         return *this;
     }
@@ -115,9 +111,7 @@ public:
     {
         static_assert(std::is_convertible<U *, T *>::value, "U must be convertible to T.");
 
-        move_assign(static_cast<T *>(other.ptr_));
-
-        other.ptr_ = nullptr;
+        replace(static_cast<T *>(other.release()));
 
         return *this;
     }
@@ -159,18 +153,14 @@ private:
             return;
         }
 
-        decrement_ref_count();
-
-        ptr_ = other_ptr;
-
-        increment_ref_count();
+        replace(Intrusive_ptr{other_ptr}.release());
     }
 
-    void move_assign(T *other_ptr) noexcept
+    // The old object can own the pointer from which we got the new one,
+    // and even this pointer; therefore it must be released last.
+    void replace(T *other_ptr) noexcept
     {
-        decrement_ref_count();
-
-        ptr_ = other_ptr;
+        Intrusive_ptr old{std::exchange(ptr_, other_ptr), /*increment_ref*/ false};
     }
 
     void increment_ref_count() noexcept
-- 
2.43.0


From 10cb6172f8b17127c18bf325a941ac913186166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:32 +0000
Subject: [PATCH 52/69] fix: truncate the file behind a memory block after its
 mapping

Shrinking truncated the file first; if the mapping then could not be
changed, the block still claimed its old size and reading its data
ended the process with SIGBUS.
---
 .../mlio/memory/file_backed_memory_block.h    |  3 ++
 src/mlio/memory/file_backed_memory_block.cc   | 40 +++++++++----------
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/include/mlio/memory/file_backed_memory_block.h b/include/mlio/memory/file_backed_memory_block.h
index 45e3e62..bd9a95d 100644
--- a/include/mlio/memory/file_backed_memory_block.h
+++ b/include/mlio/memory/file_backed_memory_block.h
@@ -69,6 +69,9 @@ private:
     MLIO_HIDDEN
     void make_temporary_file();
 
+    MLIO_HIDDEN
+    void resize_temporary_file(size_type size);
+
     MLIO_HIDDEN
     std::byte *init_memory_map(std::size_t size);
 
diff --git a/src/mlio/memory/file_backed_memory_block.cc b/src/mlio/memory/file_backed_memory_block.cc
index f90ecb5..5bc7c6d 100644
--- a/src/mlio/memory/file_backed_memory_block.cc
+++ b/src/mlio/memory/file_backed_memory_block.cc
@@ -76,10 +76,12 @@ void File_backed_memory_block::resize(size_type size)
         return;
     }
 
-    auto off = static_cast<::off_t>(size);
-    if (::ftruncate(fd_.get(), off) != 0) {
-        throw std::system_error{current_error_code(),
-                                "The file-backed memory block cannot be resized."};
+    // The backing file must be at least as large as the mapping at all
+    // times; otherwise the data would not be accessible anymore if the
+    // mapping cannot be resized.
+    size_type old_size = size_;
+    if (size > old_size) {
+        resize_temporary_file(size);
     }
 
     if (size_ == 0) {
@@ -101,22 +103,7 @@ void File_backed_memory_block::resize(size_type size)
         data_ = static_cast<std::byte *>(addr);
         size_ = size;
 #else
-        std::byte *data{};
-        try {
-            data = init_memory_map(size);
-        }
-        catch (const std::system_error &) {
-            // We already truncated the backing file, but cannot map it
-            // to memory. If the new size is less than the original size
-            // this means we lost the data in the truncated region. In
-            // such case we should abort the process as there is no way
-            // to recover gracefully.
-            if (size_ > size) {
-                std::abort();
-            }
-
-            throw;
-        }
+        std::byte *data = init_memory_map(size);
 
         ::munmap(data_, size_);
 
@@ -124,6 +111,19 @@ void File_backed_memory_block::resize(size_type size)
         size_ = size;
 #endif
     }
+
+    if (size < old_size) {
+        resize_temporary_file(size);
+    }
+}
+
+void File_backed_memory_block::resize_temporary_file(size_type size)
+{
+    auto off = static_cast<::off_t>(size);
+    if (::ftruncate(fd_.get(), off) != 0) {
+        throw std::system_error{current_error_code(),
+                                "The file-backed memory block cannot be resized."};
+    }
 }
 
 std::byte *File_backed_memory_block::init_memory_map(std::size_t size)
-- 
2.43.0


From f5e8eae1473a780dd8ad1efeee857a1fd0f800e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:55 +0000
Subject: [PATCH 53/69] fix: refuse null streams and data stores

A data store that is null, a record reader over no stream and a Python
data store whose open_read() returns None ended the process.
---
 include/mlio/data_reader_base.h                 |  2 +-
 src/mlio-py/mlio/core/data_store.cc             | 12 ++++++++++++
 src/mlio/data_reader_base.cc                    |  9 ++++++++-
 src/mlio/record_readers/stream_record_reader.cc |  5 +++++
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/mlio/data_reader_base.h b/include/mlio/data_reader_base.h
index 87cc367..b3598f9 100644
--- a/include/mlio/data_reader_base.h
+++ b/include/mlio/data_reader_base.h
@@ -41,7 +41,7 @@ public:
     }
 
 protected:
-    explicit Data_reader_base(Data_reader_params &&params) noexcept;
+    explicit Data_reader_base(Data_reader_params &&params);
 
     /// Gets the effective boolean value indicating whether a warning
     /// will be output for each bad instance.
diff --git a/src/mlio-py/mlio/core/data_store.cc b/src/mlio-py/mlio/core/data_store.cc
index 9a51d7c..9dc9c26 100644
--- a/src/mlio-py/mlio/core/data_store.cc
+++ b/src/mlio-py/mlio/core/data_store.cc
@@ -17,6 +17,7 @@
 
 #include <chrono>
 #include <exception>
+#include <stdexcept>
 
 #include "py_memory_block.h"
 
@@ -38,12 +39,23 @@ public:
     const std::string &id() const noexcept override;
 
 private:
+    Intrusive_ptr<Input_stream> py_open_read() const;
+
     std::string py_id() const;
 
     mutable std::string id_{};
 };
 
 Intrusive_ptr<Input_stream> Py_data_store::open_read() const
+{
+    Intrusive_ptr<Input_stream> stream = py_open_read();
+    if (stream == nullptr) {
+        throw std::invalid_argument{"The open_read() function of a data store must return a stream."};
+    }
+    return stream;
+}
+
+Intrusive_ptr<Input_stream> Py_data_store::py_open_read() const
 {
     // NOLINTNEXTLINE
     PYBIND11_OVERLOAD_PURE(Intrusive_ptr<Input_stream>, Data_store, open_read, )
diff --git a/src/mlio/data_reader_base.cc b/src/mlio/data_reader_base.cc
index 2c8342d..d644222 100644
--- a/src/mlio/data_reader_base.cc
+++ b/src/mlio/data_reader_base.cc
@@ -15,6 +15,7 @@
 
 #include "mlio/data_reader_base.h"
 
+#include <stdexcept>
 #include <utility>
 
 #include "mlio/logger.h"
@@ -43,9 +44,15 @@ void Data_reader_base::reset() noexcept
     peeked_example_ = nullptr;
 }
 
-Data_reader_base::Data_reader_base(Data_reader_params &&params) noexcept
+Data_reader_base::Data_reader_base(Data_reader_params &&params)
     : params_{std::move(params)}
 {
+    for (const Intrusive_ptr<Data_store> &store : params_.dataset) {
+        if (store == nullptr) {
+            throw std::invalid_argument{"The data stores of a dataset cannot be null."};
+        }
+    }
+
     if (params_.warn_bad_instances) {
         warn_bad_instances_ = logger::is_enabled_for(Log_level::warning);
     }
diff --git a/src/mlio/record_readers/stream_record_reader.cc b/src/mlio/record_readers/stream_record_reader.cc
index 2775635..f75cb26 100644
--- a/src/mlio/record_readers/stream_record_reader.cc
+++ b/src/mlio/record_readers/stream_record_reader.cc
@@ -16,6 +16,7 @@
 #include "mlio/record_readers/stream_record_reader.h"
 
 #include <optional>
+#include <stdexcept>
 #include <utility>
 
 #include "mlio/record_readers/detail/chunk_reader.h"
@@ -39,6 +40,10 @@ void Stream_record_reader::set_record_size_hint(std::size_t value) noexcept
 
 Stream_record_reader::Stream_record_reader(Intrusive_ptr<Input_stream> stream)
 {
+    if (stream == nullptr) {
+        throw std::invalid_argument{"The input stream of a record reader cannot be null."};
+    }
+
     chunk_reader_ = detail::make_chunk_reader(std::move(stream));
 }
 
-- 
2.43.0


From 94936b9114250a7b5a6f2c2d7c6bdc2c765c1144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:55 +0000
Subject: [PATCH 54/69] fix: refuse more bytes than were asked for from Python
 input streams

A read() that returns a larger number than the buffer has room for made
the library read and write memory beyond its buffers.
---
 src/mlio-py/mlio/core/stream.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/stream.cc b/src/mlio-py/mlio/core/stream.cc
index d2a3252..999af8d 100644
--- a/src/mlio-py/mlio/core/stream.cc
+++ b/src/mlio-py/mlio/core/stream.cc
@@ -16,6 +16,7 @@
 #include "module.h"
 
 #include <exception>
+#include <stdexcept>
 
 #include "py_memory_block.h"
 
@@ -50,6 +51,9 @@ public:
     }
 
     bool closed() const noexcept override;
+
+private:
+    std::size_t py_read(const py::object &buf);
 };
 
 std::size_t Py_input_stream::read(Mutable_memory_span destination)
@@ -67,8 +71,18 @@ std::size_t Py_input_stream::read(Mutable_memory_span destination)
 
     auto holder = py::reinterpret_steal<py::object>(buf);
 
+    std::size_t num_bytes_read = py_read(holder);
+    if (num_bytes_read > destination.size()) {
+        throw std::length_error{
+            "The read() function of an input stream returned more bytes than were asked for."};
+    }
+    return num_bytes_read;
+}
+
+std::size_t Py_input_stream::py_read(const py::object &buf)
+{
     // NOLINTNEXTLINE
-    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, read, holder)
+    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, read, buf)
 }
 
 Memory_slice Py_input_stream::read(std::size_t size)
-- 
2.43.0


From 76393162e14369b207baed35136d5e624c4fdb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:24 +0000
Subject: [PATCH 55/69] fix: refuse a null client of an S3 object

S3Object(None, uri) was accepted, and opening it called through a null
pointer in builds with S3.
---
 src/mlio/data_stores/s3_object.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mlio/data_stores/s3_object.cc b/src/mlio/data_stores/s3_object.cc
index 23c0945..e290ade 100644
--- a/src/mlio/data_stores/s3_object.cc
+++ b/src/mlio/data_stores/s3_object.cc
@@ -42,6 +42,10 @@ S3_object::S3_object(Intrusive_ptr<const S3_client> client,
     , version_id_{std::move(version_id)}
     , compression_{compression}
 {
+    if (client_ == nullptr) {
+        throw std::invalid_argument{"The client of an S3 object cannot be null."};
+    }
+
     detail::validate_s3_object_uri(uri_);
 
     if (compression_ == Compression::infer) {
-- 
2.43.0


From 053b2b2a7280e7a7401edb5ad71eee2ce25cc4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:50 +0000
Subject: [PATCH 56/69] fix: report the finite numbers of a column as such

numeric_finite_count was the count of all numbers, infinity included.
---
 src/mlio-py/mlio/contrib/insights/module.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/module.cc b/src/mlio-py/mlio/contrib/insights/module.cc
index c94632a..9016f3a 100644
--- a/src/mlio-py/mlio/contrib/insights/module.cc
+++ b/src/mlio-py/mlio/contrib/insights/module.cc
@@ -99,7 +99,7 @@ PYBIND11_MODULE(insights, m)
     std::vector<std::pair<const char *, size_t Column_analysis::*>> long_stat_names = {
         {"rows_seen", &Column_analysis::rows_seen},
         {"numeric_count", &Column_analysis::numeric_count},
-        {"numeric_finite_count", &Column_analysis::numeric_count},
+        {"numeric_finite_count", &Column_analysis::numeric_finite_count},
         {"numeric_nan_count", &Column_analysis::numeric_nan_count},
         {"numeric_int_count", &Column_analysis::numeric_int_count},
         {"string_empty_count", &Column_analysis::str_empty_count},
-- 
2.43.0


From f495f919c72194cea7a64fed642e5f2ab81474ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 57/69] fix: keep the averages of a column independent of the
 batches

---
 .../mlio/contrib/insights/column_analyzer.cc  | 25 ++++++++++++-------
 src/mlio-py/mlio/contrib/insights/module.cc   |  3 +++
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index c9f4a9b..b8ba692 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -66,6 +66,8 @@ void Column_analyzer::analyze(const mlio::Example &example) const
 
             stats.rows_seen++;
 
+            string_column_count++;
+
             // String analyzers.
             if (cell.empty()) {
                 stats.str_empty_count++;
@@ -80,7 +82,6 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             stats.str_min_length_not_empty = std::min(stats.str_min_length_not_empty, cell.size());
 
             string_column_length_sum += cell.size();
-            string_column_count++;
 
             stats.str_cardinality_estimator_.add(cell);
 
@@ -153,16 +154,22 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         }
 
         // Update the mean of numeric values based on the entire range of values.
-        auto ncc = static_cast<double>(numeric_column_count);
-        auto nfc = static_cast<double>(stats.numeric_finite_count);
-        double numeric_column_mean = numeric_column_sum / ncc;
-        stats.numeric_finite_mean += (numeric_column_mean - stats.numeric_finite_mean) * ncc / nfc;
+        if (numeric_column_count > 0) {
+            auto ncc = static_cast<double>(numeric_column_count);
+            auto nfc = static_cast<double>(stats.numeric_finite_count);
+            double numeric_column_mean = numeric_column_sum / ncc;
+            stats.numeric_finite_mean +=
+                (numeric_column_mean - stats.numeric_finite_mean) * ncc / nfc;
+        }
 
         // Update average length of string values baseed on entire range of values.
-        auto scc = static_cast<double>(string_column_count);
-        auto rows_seen = static_cast<double>(stats.rows_seen);
-        double string_column_avg_length = static_cast<double>(string_column_length_sum) / scc;
-        stats.str_avg_length += (string_column_avg_length - stats.str_avg_length) * scc / rows_seen;
+        if (string_column_count > 0) {
+            auto scc = static_cast<double>(string_column_count);
+            auto rows_seen = static_cast<double>(stats.rows_seen);
+            double string_column_avg_length = static_cast<double>(string_column_length_sum) / scc;
+            stats.str_avg_length +=
+                (string_column_avg_length - stats.str_avg_length) * scc / rows_seen;
+        }
     }
 };
 
diff --git a/src/mlio-py/mlio/contrib/insights/module.cc b/src/mlio-py/mlio/contrib/insights/module.cc
index 9016f3a..760fe93 100644
--- a/src/mlio-py/mlio/contrib/insights/module.cc
+++ b/src/mlio-py/mlio/contrib/insights/module.cc
@@ -74,6 +74,9 @@ data_analysis analyze_dataset(mlio::Data_reader &reader,
 
     // Cleans up any temporary or intermediate placeholder values.
     for (auto &stats : column_stats) {
+        if (stats.numeric_finite_count == 0) {
+            stats.numeric_finite_mean = std::numeric_limits<double>::quiet_NaN();
+        }
         if (stats.str_min_length == max_len) {
             stats.str_min_length = 0;
         }
-- 
2.43.0


From ba727d561128f2a6cea33fedb0d47f50d2e9f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 58/69] fix: take empty strings as the shortest ones of a
 column

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index b8ba692..29f42de 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -72,6 +72,8 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             if (cell.empty()) {
                 stats.str_empty_count++;
 
+                stats.str_min_length = 0;
+
                 // All other analysis is irrelevant if we have an empty string.
                 continue;
             }
-- 
2.43.0


From ca9562d9922097ff20be776b7441316608e0269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:39 +0000
Subject: [PATCH 59/69] fix: keep counting captured values after the limit

---
 .../mlio/contrib/insights/column_analyzer.cc       | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 29f42de..4ec6c4c 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -141,12 +141,16 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             auto should_capture = capture_columns_->find(feature_idx) != capture_columns_->end();
 
             // Capture the values if specified.
-            if (should_capture && !stats.str_captured_unique_values_overflowed) {
-                if (stats.str_captured_unique_values.size() < max_capture_count_) {
-                    ++stats.str_captured_unique_values[cell];
+            if (should_capture) {
+                auto &captured_values = stats.str_captured_unique_values;
+
+                if (auto value_pos = captured_values.find(cell); value_pos != captured_values.end()) {
+                    ++value_pos->second;
+                }
+                else if (captured_values.size() < max_capture_count_) {
+                    captured_values.emplace(cell, 1);
                 }
-                else if (stats.str_captured_unique_values.find(cell) ==
-                         stats.str_captured_unique_values.end()) {
+                else {
                     // If the value isn't present but we're not adding it
                     // because we're at a limit then we should flag that we
                     // have overflowed.
-- 
2.43.0


From a840b6a6f3692e04a3ec472755609ca4cc44c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:39 +0000
Subject: [PATCH 60/69] fix: keep the registers of HyperLogLog defined

---
 src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc | 2 +-
 src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
index dffc9d7..6f6ddbc 100644
--- a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
+++ b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
@@ -106,7 +106,7 @@ void HyperLogLog::merge(const HyperLogLog &other)
     }
     for (uint32_t r = 0; r < m_; ++r) {
         if (M_[r] < other.M_[r]) {
-            M_[r] |= other.M_[r];
+            M_[r] = other.M_[r];
         }
     }
 }
diff --git a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
index 08c56a8..a57fbff 100644
--- a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
+++ b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
@@ -43,7 +43,7 @@
 
 #if defined(__has_builtin) && (defined(__GNUC__) || defined(__clang__))
 
-#define _GET_CLZ(x, b) (uint8_t) std::min(b, ::__builtin_clz(x)) + 1
+#define _GET_CLZ(x, b) (uint8_t)((x) == 0 ? (b) : std::min(b, ::__builtin_clz(x))) + 1
 
 #else
 
-- 
2.43.0


From 347b6712c753efd57bf8e68f956825dbc1c785f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:39 +0000
Subject: [PATCH 61/69] fix: compare null-like values as unsigned characters

---
 src/mlio-py/mlio/contrib/insights/utils.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/utils.cc b/src/mlio-py/mlio/contrib/insights/utils.cc
index f50658e..bc85fdb 100644
--- a/src/mlio-py/mlio/contrib/insights/utils.cc
+++ b/src/mlio-py/mlio/contrib/insights/utils.cc
@@ -28,8 +28,11 @@ bool match_nan_values(std::string_view s, const std::vector<std::string> &match_
 
     for (const auto &needle : match_values) {
         bool matches =
-            std::equal(needle.begin(), needle.end(), s.begin(), s.end(), [](int c1, int c2) {
-                return c1 == c2 || std::tolower(c1) == std::tolower(c2);
+            std::equal(needle.begin(), needle.end(), s.begin(), s.end(), [](char c1, char c2) {
+                auto u1 = static_cast<unsigned char>(c1);
+                auto u2 = static_cast<unsigned char>(c2);
+
+                return u1 == u2 || std::tolower(u1) == std::tolower(u2);
             });
         if (matches) {
             return true;
-- 
2.43.0


From 6c9021495823f7399a3aefde740d3d2af296b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:39 +0000
Subject: [PATCH 62/69] fix: refuse examples that do not fit the analyzed
 columns

---
 .../mlio/contrib/insights/column_analyzer.cc        | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 4ec6c4c..60fc984 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -18,6 +18,7 @@
 #include <cmath>
 #include <iostream>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 
@@ -39,13 +40,21 @@ Column_analyzer::Column_analyzer(std::vector<Column_analysis> &columns,
 
 void Column_analyzer::analyze(const mlio::Example &example) const
 {
+    if (example.features().size() != columns_->size()) {
+        throw std::runtime_error("All examples must have the same features.");
+    }
+
     std::size_t feature_idx = 0;
 
     for (auto pos = example.features().begin(); pos < example.features().end();
          ++pos, feature_idx++) {
         const auto &tensor = example.features()[feature_idx];
-        const auto &dense_tsr = static_cast<const mlio::Dense_tensor &>(*tensor);
-        auto cells = dense_tsr.data().as<std::string>();
+        const auto *dense_tsr = dynamic_cast<const mlio::Dense_tensor *>(tensor.get());
+        if (dense_tsr == nullptr || dense_tsr->data_type() != mlio::Data_type::string) {
+            throw std::runtime_error("Data insights only works with dense string tensors.");
+        }
+
+        auto cells = dense_tsr->data().as<std::string>();
 
         Column_analysis &stats = (*columns_)[feature_idx];
 
-- 
2.43.0


From 502b192fffa7e1e20aa3f7ea1a90246a394973ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:45 +0000
Subject: [PATCH 63/69] fix: classify characters as unsigned ones

---
 src/mlio/util/string.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio/util/string.cc b/src/mlio/util/string.cc
index afe57ee..a550755 100644
--- a/src/mlio/util/string.cc
+++ b/src/mlio/util/string.cc
@@ -27,7 +27,7 @@ namespace {
 template<typename It>
 inline auto find_first_non_space(It first, It last)
 {
-    auto pos = std::find_if_not(first, last, [](int ch) {
+    auto pos = std::find_if_not(first, last, [](unsigned char ch) {
         return std::isspace(ch);
     });
 
@@ -61,7 +61,7 @@ std::string_view trim(std::string_view s) noexcept
 
 bool is_whitespace_only(std::string_view s) noexcept
 {
-    auto pos = std::find_if_not(s.cbegin(), s.cend(), [](int ch) {
+    auto pos = std::find_if_not(s.cbegin(), s.cend(), [](unsigned char ch) {
         return std::isspace(ch);
     });
 
-- 
2.43.0


From e8f652e54a975be933b03451c90d4974e22f224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 64/69] fix: compute the identifiers of data stores once, at
 construction

id() filled a mutable string on first use, although a data store can be
shared by readers that run on different threads.
---
 include/mlio/data_stores/in_memory_store.h |  7 +++++--
 include/mlio/data_stores/s3_object.h       |  7 +++++--
 src/mlio/data_stores/in_memory_store.cc    | 13 +++----------
 src/mlio/data_stores/s3_object.cc          | 15 ++-------------
 4 files changed, 15 insertions(+), 27 deletions(-)

diff --git a/include/mlio/data_stores/in_memory_store.h b/include/mlio/data_stores/in_memory_store.h
index 779128b..589ea9b 100644
--- a/include/mlio/data_stores/in_memory_store.h
+++ b/include/mlio/data_stores/in_memory_store.h
@@ -39,12 +39,15 @@ public:
 
     std::string repr() const final;
 
-    const std::string &id() const final;
+    const std::string &id() const noexcept final
+    {
+        return id_;
+    }
 
 private:
     Memory_slice chunk_;
     Compression compression_;
-    mutable std::string id_{};
+    std::string id_{};
 };
 
 /// @}
diff --git a/include/mlio/data_stores/s3_object.h b/include/mlio/data_stores/s3_object.h
index 6ae435c..e9d1509 100644
--- a/include/mlio/data_stores/s3_object.h
+++ b/include/mlio/data_stores/s3_object.h
@@ -47,14 +47,17 @@ public:
 
     std::string repr() const final;
 
-    const std::string &id() const final;
+    const std::string &id() const noexcept final
+    {
+        return id_;
+    }
 
 private:
     Intrusive_ptr<const S3_client> client_;
     std::string uri_;
     std::string version_id_;
     Compression compression_;
-    mutable std::string id_{};
+    std::string id_{};
 };
 
 struct MLIO_API S3_object_list_options {
diff --git a/src/mlio/data_stores/in_memory_store.cc b/src/mlio/data_stores/in_memory_store.cc
index 4e1e8ab..20b6a24 100644
--- a/src/mlio/data_stores/in_memory_store.cc
+++ b/src/mlio/data_stores/in_memory_store.cc
@@ -33,6 +33,9 @@ In_memory_store::In_memory_store(Memory_slice chunk, Compression compression)
     if (compression_ == Compression::infer) {
         throw Not_supported_error{"The in-memory store does not support inferring compression."};
     }
+
+    auto *ptr = static_cast<const void *>(chunk_.data());
+    id_ = fmt::format("{0:p}+{1:#04x}", ptr, chunk_.size());
 }
 
 Intrusive_ptr<Input_stream> In_memory_store::open_read() const
@@ -49,16 +52,6 @@ Intrusive_ptr<Input_stream> In_memory_store::open_read() const
     return make_inflate_stream(std::move(stream), compression_);
 }
 
-const std::string &In_memory_store::id() const
-{
-    if (id_.empty()) {
-        auto *ptr = static_cast<const void *>(chunk_.data());
-        id_ = fmt::format("{0:p}+{1:#04x}", ptr, chunk_.size());
-    }
-
-    return id_;
-}
-
 std::string In_memory_store::repr() const
 {
     auto *ptr = static_cast<const void *>(chunk_.data());
diff --git a/src/mlio/data_stores/s3_object.cc b/src/mlio/data_stores/s3_object.cc
index e290ade..bd0320f 100644
--- a/src/mlio/data_stores/s3_object.cc
+++ b/src/mlio/data_stores/s3_object.cc
@@ -51,6 +51,8 @@ S3_object::S3_object(Intrusive_ptr<const S3_client> client,
     if (compression_ == Compression::infer) {
         compression_ = detail::infer_compression(uri_);
     }
+
+    id_ = version_id_.empty() ? uri_ : uri_ + "@" + version_id_;
 }
 
 Intrusive_ptr<Input_stream> S3_object::open_read() const
@@ -67,19 +69,6 @@ Intrusive_ptr<Input_stream> S3_object::open_read() const
     return make_inflate_stream(std::move(stream), compression_);
 }
 
-const std::string &S3_object::id() const
-{
-    if (id_.empty()) {
-        if (version_id_.empty()) {
-            return uri_;
-        }
-
-        id_ = uri_ + "@" + version_id_;
-    }
-
-    return id_;
-}
-
 std::string S3_object::repr() const
 {
     return fmt::format(
-- 
2.43.0


From 866492aba7bab7e6e870e3951f14fc09e9e4d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 65/69] fix: replace the log message handler safely while other
 threads log

The handler and the level were plain globals, so that replacing them while
a background thread was logging called a half-replaced std::function.
---
 include/mlio/logging.h |  2 +-
 src/mlio/logger.cc     | 26 ++++++++++++++++++++------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/mlio/logging.h b/include/mlio/logging.h
index 1fa7ac7..faad972 100644
--- a/include/mlio/logging.h
+++ b/include/mlio/logging.h
@@ -34,7 +34,7 @@ using Log_message_handler = std::function<void(Log_level, std::string_view)>;
 /// The passsed handler can be called by multiple threads
 /// simultaneously; therefore it should be thread-safe.
 MLIO_API
-Log_message_handler set_log_message_handler(Log_message_handler handler) noexcept;
+Log_message_handler set_log_message_handler(Log_message_handler handler);
 
 MLIO_API
 void set_log_level(Log_level level) noexcept;
diff --git a/src/mlio/logger.cc b/src/mlio/logger.cc
index b3b2a26..fa367c8 100644
--- a/src/mlio/logger.cc
+++ b/src/mlio/logger.cc
@@ -15,7 +15,9 @@
 
 #include "mlio/logger.h"
 
+#include <atomic>
 #include <functional>
+#include <memory>
 #include <type_traits>
 #include <utility>
 
@@ -26,9 +28,11 @@ inline namespace abi_v1 {
 namespace logger {
 namespace {
 
-Log_message_handler msg_handler_{};
+// The handler is held by a shared pointer that is only accessed atomically
+// so that it can be replaced while other threads are still calling it.
+std::shared_ptr<const Log_message_handler> msg_handler_{};
 
-Log_level level_{Log_level::warning};
+std::atomic<Log_level> level_{Log_level::warning};
 
 }  // namespace
 
@@ -36,9 +40,10 @@ namespace detail {
 
 void handle_message(Log_level level, std::string_view msg) noexcept
 {
-    if (msg_handler_ != nullptr) {
+    auto handler = std::atomic_load(&msg_handler_);
+    if (handler != nullptr) {
         try {
-            msg_handler_(level, msg);
+            (*handler)(level, msg);
         }
         catch (...) {
         }
@@ -67,9 +72,18 @@ bool is_enabled_for(Log_level level) noexcept
 
 }  // namespace logger
 
-Log_message_handler set_log_message_handler(Log_message_handler handler) noexcept
+Log_message_handler set_log_message_handler(Log_message_handler handler)
 {
-    return std::exchange(logger::msg_handler_, std::move(handler));
+    std::shared_ptr<const Log_message_handler> new_handler{};
+    if (handler != nullptr) {
+        new_handler = std::make_shared<const Log_message_handler>(std::move(handler));
+    }
+
+    auto old_handler = std::atomic_exchange(&logger::msg_handler_, std::move(new_handler));
+    if (old_handler == nullptr) {
+        return {};
+    }
+    return *old_handler;
 }
 
 void set_log_level(Log_level level) noexcept
-- 
2.43.0


From 3b0926fd625a3fca7b7368b1fc319a3504caf3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 66/69] fix: hand out the FIFO of a SageMaker pipe once when it
 is opened by several threads

---
 include/mlio/data_stores/sagemaker_pipe.h |  2 ++
 src/mlio/data_stores/sagemaker_pipe.cc    | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/mlio/data_stores/sagemaker_pipe.h b/include/mlio/data_stores/sagemaker_pipe.h
index b6c70a8..bb1fa02 100644
--- a/include/mlio/data_stores/sagemaker_pipe.h
+++ b/include/mlio/data_stores/sagemaker_pipe.h
@@ -17,6 +17,7 @@
 
 #include <chrono>
 #include <cstddef>
+#include <mutex>
 #include <optional>
 #include <string>
 
@@ -53,6 +54,7 @@ public:
 private:
     std::string path_;
     std::chrono::seconds timeout_;
+    mutable std::mutex fifo_id_mutex_{};
     mutable std::optional<std::size_t> fifo_id_;
     Compression compression_;
 };
diff --git a/src/mlio/data_stores/sagemaker_pipe.cc b/src/mlio/data_stores/sagemaker_pipe.cc
index 1f4e829..5e0db83 100644
--- a/src/mlio/data_stores/sagemaker_pipe.cc
+++ b/src/mlio/data_stores/sagemaker_pipe.cc
@@ -15,6 +15,8 @@
 
 #include "mlio/data_stores/sagemaker_pipe.h"
 
+#include <mutex>
+#include <optional>
 #include <utility>
 
 #include <fmt/format.h>
@@ -46,8 +48,14 @@ Intrusive_ptr<Input_stream> Sagemaker_pipe::open_read() const
 {
     logger::info("The SageMaker pipe '{0}' is being opened.", path_);
 
-    auto stream =
-        make_sagemaker_pipe_input_stream(path_, timeout_, std::exchange(fifo_id_, std::nullopt));
+    std::optional<std::size_t> fifo_id{};
+    {
+        std::lock_guard<std::mutex> lock{fifo_id_mutex_};
+
+        fifo_id = std::exchange(fifo_id_, std::nullopt);
+    }
+
+    auto stream = make_sagemaker_pipe_input_stream(path_, timeout_, fifo_id);
 
     if (compression_ == Compression::none) {
         return std::move(stream);
-- 
2.43.0


From 1187e58b333c49cb1006b4805a0b6556085664ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:53 +0000
Subject: [PATCH 67/69] fix: parse integers in the base asked for and tell
 malformed ones from those out of range

---
 include/mlio/util/number.h |  6 +++--
 src/mlio/parser.cc         |  6 ++---
 src/mlio/util/number.cc    | 53 ++++++++++++++------------------------
 3 files changed, 27 insertions(+), 38 deletions(-)

diff --git a/include/mlio/util/number.h b/include/mlio/util/number.h
index a4aabda..46522a9 100644
--- a/include/mlio/util/number.h
+++ b/include/mlio/util/number.h
@@ -46,7 +46,7 @@ try_parse_float<double>(std::string_view s, double &result, const Float_parse_op
 // clang-format on
 
 struct MLIO_API Int_parse_options {
-    int base{};
+    int base = 10;
 };
 
 template<typename T>
@@ -83,7 +83,9 @@ try_parse_int<std::uint64_t>(std::string_view s, std::uint64_t &result, const In
 // clang-format on
 
 MLIO_API
-Parse_result try_parse_size_t(std::string_view s, std::size_t &result) noexcept;
+Parse_result try_parse_size_t(std::string_view s,
+                              std::size_t &result,
+                              const Int_parse_options &opts = {}) noexcept;
 
 }  // namespace abi_v1
 }  // namespace mlio
diff --git a/src/mlio/parser.cc b/src/mlio/parser.cc
index b338d13..deab73b 100644
--- a/src/mlio/parser.cc
+++ b/src/mlio/parser.cc
@@ -34,10 +34,10 @@ decltype(auto) at(Device_array_span arr, std::size_t index) noexcept
 }
 
 template<Data_type dt>
-Return_if<dt == Data_type::size> make_parser_core(const Parser_options &)
+Return_if<dt == Data_type::size> make_parser_core(const Parser_options &opts)
 {
-    return [](std::string_view s, Device_array_span arr, std::size_t index) {
-        return try_parse_size_t(s, at<dt>(arr, index));
+    return [&opts](std::string_view s, Device_array_span arr, std::size_t index) {
+        return try_parse_size_t(s, at<dt>(arr, index), {opts.base});
     };
 }
 
diff --git a/src/mlio/util/number.cc b/src/mlio/util/number.cc
index c12c2ff..0b5ae4b 100644
--- a/src/mlio/util/number.cc
+++ b/src/mlio/util/number.cc
@@ -15,10 +15,11 @@
 
 #include "mlio/util/number.h"
 
+#include <charconv>
 #include <cmath>
 #include <cstdint>
 #include <limits>
-#include <type_traits>
+#include <system_error>
 
 #include <absl/strings/numbers.h>
 
@@ -29,7 +30,7 @@ inline namespace abi_v1 {
 namespace detail {
 namespace {
 
-template<typename T, typename = void>
+template<typename T>
 struct parser_traits;
 
 // clang-format off
@@ -44,11 +45,6 @@ struct parser_traits<double> {
     static constexpr bool (*parse_func)(absl::string_view s, double *result) = absl::SimpleAtod;
 };
 
-template<typename T>
-struct parser_traits<T, std::enable_if_t<std::is_integral_v<T>>> {
-    static constexpr bool (*parse_func)(absl::string_view s, T      *result) = absl::SimpleAtoi;
-};
-
 // clang-format on
 
 template<typename T>
@@ -79,43 +75,33 @@ Parse_result try_parse_float_core(std::string_view s, T &result, const Float_par
 }
 
 template<typename T>
-std::enable_if_t<sizeof(T) >= 4, Parse_result>
-try_parse_int_core(std::string_view s, T &result, const Int_parse_options &) noexcept
+Parse_result try_parse_int_core(std::string_view s, T &result, const Int_parse_options &opts) noexcept
 {
-    // Do not use 0; otherwise we cannot distinguish between a failure
-    // and an overflow for unsigned types.
-    T v = 1;
-
-    if (!parser_traits<T>::parse_func(s, &v)) {
-        if (v == std::numeric_limits<T>::max() || v == std::numeric_limits<T>::min()) {
-            return Parse_result::overflowed;
-        }
+    if (opts.base < 2 || opts.base > 36) {
         return Parse_result::failed;
     }
 
-    result = v;
+    s = trim(s);
 
-    return Parse_result::ok;
-}
+    // std::from_chars() does not recognize the plus sign.
+    if (s.size() > 1 && s[0] == '+' && s[1] != '-') {
+        s.remove_prefix(1);
+    }
 
-template<typename T>
-std::enable_if_t<sizeof(T) <= 2, Parse_result>
-try_parse_int_core(std::string_view s, T &result, const Int_parse_options &opts) noexcept
-{
-    using U = std::conditional_t<std::is_signed_v<T>, std::int32_t, std::uint32_t>;
+    const char *end = s.data() + s.size();
 
-    U v;
+    T v{};
 
-    Parse_result r = try_parse_int_core<U>(s, v, opts);
-    if (r != Parse_result::ok) {
-        return r;
+    std::from_chars_result r = std::from_chars(s.data(), end, v, opts.base);
+    if (r.ec == std::errc::invalid_argument || r.ptr != end) {
+        return Parse_result::failed;
     }
 
-    if (v < std::numeric_limits<T>::min() || v > std::numeric_limits<T>::max()) {
+    if (r.ec == std::errc::result_out_of_range) {
         return Parse_result::overflowed;
     }
 
-    result = static_cast<T>(v);
+    result = v;
 
     return Parse_result::ok;
 }
@@ -174,9 +160,10 @@ try_parse_int<std::uint64_t>(std::string_view s, std::uint64_t &result, const In
 
 // clang-format on
 
-Parse_result try_parse_size_t(std::string_view s, std::size_t &result) noexcept
+Parse_result
+try_parse_size_t(std::string_view s, std::size_t &result, const Int_parse_options &opts) noexcept
 {
-    return try_parse_int(s, result);
+    return try_parse_int(s, result, opts);
 }
 
 }  // namespace abi_v1
-- 
2.43.0


From 0a86ce5823208d50c69538405da9c53f158f5351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:50 +0000
Subject: [PATCH 68/69] fix: convert Latin-1 text to UTF-8

---
 src/mlio/streams/utf8_input_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index 775fe4f..f31312e 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -290,7 +290,7 @@ Intrusive_ptr<Input_stream>
 make_utf8_stream(Intrusive_ptr<Input_stream> stream, std::optional<Text_encoding> encoding)
 {
     if (encoding != std::nullopt) {
-        if (*encoding == Text_encoding::utf8 || *encoding == Text_encoding::ascii_latin1) {
+        if (*encoding == Text_encoding::utf8) {
             return stream;
         }
     }
-- 
2.43.0


From d73069ad8fd0d7b78aed463bf4e848d29efcd8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:13 +0000
Subject: [PATCH 69/69] fix: list files whose names compare the same in a fixed
 order

---
 src/mlio/data_stores/file_list.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mlio/data_stores/file_list.cc b/src/mlio/data_stores/file_list.cc
index 9587a1b..d34db25 100644
--- a/src/mlio/data_stores/file_list.cc
+++ b/src/mlio/data_stores/file_list.cc
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <cerrno>
+#include <cstring>
 #include <iterator>
 #include <memory>
 #include <stdexcept>
@@ -65,7 +66,14 @@ std::vector<const char *> get_path_c_strs(stdx::span<const std::string> paths)
 
 inline int natural_sort(const ::FTSENT **a, const ::FTSENT **b)
 {
-    return ::strnatcmp((*a)->fts_name, (*b)->fts_name);
+    int r = ::strnatcmp((*a)->fts_name, (*b)->fts_name);
+    if (r != 0) {
+        return r;
+    }
+
+    // Distinct names can compare the same as whitespace gets ignored; the
+    // order must not depend on the order of the directory entries.
+    return std::strcmp((*a)->fts_name, (*b)->fts_name);
 }
 
 auto make_fts(stdx::span<const std::string> paths)
-- 
2.43.0

