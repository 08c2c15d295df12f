#include SRC_MAIN
