int main() {
    char buffer[50];
    int written = sprintf(buffer, "Hello %s %d", "World", 1123);
    printf("%s", buffer);
    return written;
}
