#ifndef VERIF_IOSHIM_H
#define VERIF_IOSHIM_H
// Reads of the file fail from byte `pos` on (once: only the first one there
// fails); path NULL: no fault.  IoFired: how many reads failed since.
extern "C" void IoFault(const char *path, long pos, int once);
extern "C" long IoFired();
#endif
