#ifndef VSTUB_NULL_DELETER
#define VSTUB_NULL_DELETER
namespace sm { struct null_deleter { template <typename T> void operator()(T*) const {} }; }
#endif
