int main(int argc, int argv) { exit(sizeof(_Bool**)); }
