// P19: a class with a wrapper member and only some special members declared is
// complete (the others are declared implicitly) while the element is not.
#include "wit.h"
namespace vpw {
struct Early;
struct EarlyHolder { VP_WR<Early> e; EarlyHolder(const EarlyHolder&); ~EarlyHolder(); };
W("a class with a wrapper member is complete while the element is not", sizeof(EarlyHolder) == sizeof(void*));
struct Early { int x; };
}  // namespace vpw
