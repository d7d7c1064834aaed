int main() {
    printf("%x", 127);
    return 0;
}
