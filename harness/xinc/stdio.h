extern void *stderr;
int fprintf(void *, const char *, ...);
