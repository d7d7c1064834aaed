int main(int argc, int argv) { for(;;) break; return 10; }
