// The plain program around api_main.
extern "C" int api_main(int argc, char* argv[]);
int main(int argc, char* argv[]) { return api_main(argc, argv); }
