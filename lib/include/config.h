#ifndef CONFIG_H
#define CONFIG_H
int pledge(const char *, const char *);
#endif
