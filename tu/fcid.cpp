// The file formats: the library's own source file is the verified text.
#include <fcidump.cxx>
