/* Library of C25: tells who it is, counts its loading and unloading at the program. */
extern void vh_dl_event(int id, int what);
static int calls;
int dl_value = ID * 1000;
int dl_ident(void) { return ID; }
int dl_next(void) { return ++calls; }
int dl_mix(int a, int b) { return a * ID + b; }
const char *dl_text(void) { return TEXT; }
#if ID % 2
int dl_odd(void) { return -ID; }
#else
int dl_even(void) { return -ID; }
#endif
/* a symbol whose value is null */
__asm__(".globl dl_null\n.set dl_null, 0\n");
__attribute__((constructor)) static void up(void) { vh_dl_event(ID, 1); }
__attribute__((destructor)) static void down(void) { vh_dl_event(ID, -1); }
#ifdef PROVIDES
int dl_base(int x) { return x + ID; }
int dl_base_value = ID * 7;
#endif
#ifdef USES
/* provided by another library, which nothing names here */
int dl_base(int x);
int dl_cross(int x) { return dl_base(x) * 2; }
#endif
#ifdef LACKS
/* provided by nobody */
int dl_nobody(int x);
int dl_lacking(int x) { return dl_nobody(x); }
#endif
