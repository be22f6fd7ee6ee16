#ifndef VSTUB_LINALG_HELPERS
#define VSTUB_LINALG_HELPERS
#endif
