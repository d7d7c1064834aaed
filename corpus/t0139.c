int main() {
    printf("%d", -2147483648);
    return 0;
}
