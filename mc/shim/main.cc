int tycho2_main(int, char **);
extern "C" int mcs_main(int argc, char **argv) { return tycho2_main(argc, argv); }
