int main(int argc, int argv) { int a; a = 0; switch (3) { case 0: return 2; default: a = 10; break; } return a; }
