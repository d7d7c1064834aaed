int main() {
    char buffer[10];
    int written = snprintf(buffer, 10, "Number: %d", -37);
    printf("%s", buffer);
    return written;
}
