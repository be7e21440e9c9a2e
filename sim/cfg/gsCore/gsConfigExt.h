#define gsKLShell_ENABLED
