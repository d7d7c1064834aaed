int main() {
    printf("%o", 100);
    return 0;
}
