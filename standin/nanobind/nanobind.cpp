// NumPy's table of functions, for all wrappers.
#define STANDIN_NUMPY_HERE
#include "ndarray.h"
void nanobind::detail::need_numpy()
{
  if (!PyArray_API && _import_array() < 0) throw python_error();
}
