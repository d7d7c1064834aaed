int main(int argc, int argv) { int a; a = 10; if (1) { a = 20; } else { a = 10; } return a; }
