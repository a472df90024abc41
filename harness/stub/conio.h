/* stand-in for the DOS header: no key is ever pressed */
static inline int kbhit(void) { return 0; }
