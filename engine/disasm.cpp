// hlcdis - decodes x86-64 machine code with LLVM's disassembler (the independent oracle for the encodings
// the compiler emits).  stdin: one hexadecimal byte string per line; stdout: one JSON array per line,
// [[offset, size, text], ...]; an undecodable position ends the list with [offset, 0, "bad"].
#include <llvm-c/Disassembler.h>
#include <llvm-c/Target.h>
#include <cstdio>
#include <string>
#include <vector>
#include <iostream>
int main(){
  LLVMInitializeX86TargetInfo(); LLVMInitializeX86TargetMC(); LLVMInitializeX86Disassembler();
  LLVMDisasmContextRef d = LLVMCreateDisasm("x86_64-pc-windows-msvc", nullptr, 0, nullptr, nullptr);
  if(!d) return 2;
  LLVMSetDisasmOptions(d, LLVMDisassembler_Option_AsmPrinterVariant);
  std::string line;
  while(std::getline(std::cin, line)){
    std::vector<unsigned char> b; for(size_t i = 0; i + 1 < line.size(); i += 2) b.push_back((unsigned char)std::stoi(line.substr(i, 2), nullptr, 16));
    printf("["); size_t at = 0; bool first = true; char buf[256];
    while(at < b.size()){
      size_t n = LLVMDisasmInstruction(d, b.data() + at, b.size() - at, at, buf, sizeof buf);
      if(!n){ // group 2, /6 is an alias of shl that processors execute and LLVM does not decode
        size_t o = at; if(o < b.size() && b[o] == 0x66) o++; if(o < b.size() && (b[o] & 0xf0) == 0x40) o++;
        if(o + 1 < b.size() && (b[o] == 0xc0 || b[o] == 0xc1 || (b[o] & 0xfc) == 0xd0) && (b[o + 1] & 0x38) == 0x30){
          b[o + 1] ^= 0x10; n = LLVMDisasmInstruction(d, b.data() + at, b.size() - at, at, buf, sizeof buf); } }
      printf("%s[%zu,%zu,\"", first ? "" : ",", at, n); first = false;
      if(!n){ printf("bad\"]"); break; }
      for(char *p = buf; *p; p++){ if(*p == '\t') putchar(' '); else if(*p == '"' || *p == '\\') printf("\\%c", *p); else putchar(*p); }
      printf("\"]"); at += n;
    }
    printf("]\n");
  }
}
