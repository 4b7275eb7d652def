// in-memory files behind the stream stand-ins of se_io.hpp
#include "ioinc/fstream"
SeFile se_files[16]; int se_nfiles = 0, se_glued = 0;
SeFile* se_file(const std::string& n, bool create) { for (int i = 0; i < se_nfiles; i++) if (se_files[i].name == n) return &se_files[i]; if (!create || se_nfiles >= 16) return nullptr; se_files[se_nfiles].name = n; se_files[se_nfiles].it.clear(); return &se_files[se_nfiles++]; }
void se_files_clear() { se_nfiles = 0; se_glued = 0; }
