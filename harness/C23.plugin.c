/* a shared library loaded by C23 */
int version(void) { return VERSION; }
static int counter;
int count(void) { return ++counter; }
#if VERSION % 2
int odd_only(void) { return 1; }
#endif
