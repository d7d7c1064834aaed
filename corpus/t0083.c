int main() {
    /* This is a test C-style comments */
    return 0;
}
