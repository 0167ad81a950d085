#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
#define __LITTLE_ENDIAN 1234
#else
#define __BIG_ENDIAN 4321
#endif
