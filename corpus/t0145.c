int main() {
    printf("%%%d", 1);
    return 0;
}
