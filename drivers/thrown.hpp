// used only when the library throws: an exception is then the call of an unknown external function that does not return
extern "C" [[noreturn]] void an_thrown();
#define throw an_thrown(),
