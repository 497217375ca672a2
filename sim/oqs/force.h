/* liboqs's build makes its common header known everywhere */
#include <oqs/common.h>
