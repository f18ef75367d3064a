// numpy_eigen's header of this name includes Boost.Python's; that is all sm_python's logging needs of it.
#include <boost/python.hpp>
