int main() {
    char buffer[50];
    int written = sprintf(buffer, "Hello World");
    printf("%s", buffer);
    return written;
}
