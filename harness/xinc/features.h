#define __GNUC_PREREQ(a,b) 1
