#pragma once
#include <pybind11/pybind11.h>
namespace pybind11 {
struct scoped_ostream_redirect { template <class... A> scoped_ostream_redirect(A &&...) {} ~scoped_ostream_redirect() {} };
struct scoped_estream_redirect { template <class... A> scoped_estream_redirect(A &&...) {} ~scoped_estream_redirect() {} };
} // namespace pybind11
