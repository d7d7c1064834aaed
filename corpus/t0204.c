int main() {
    char buffer[50];
    int written = snprintf(buffer, 50, "Hello %s %d", "World", 1123);
    printf("%s", buffer);
    return written;
}
