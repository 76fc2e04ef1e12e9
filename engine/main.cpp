extern "C" int symx_main(int argc, char **argv, char *lo, char *hi);
extern "C" char __data_start, _end;
int main(int argc, char **argv) { return symx_main(argc, argv, &__data_start, &_end); }
