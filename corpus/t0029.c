int main(int argc, int argv) { exit(011 < 11); }
