"""XML harness programs over random class models."""
import os
import models
from vrt import BuildBroken


class XmlBundle(models.Bundle):
    def __init__(self, c, idx, std, actions=("xml_pack", "xml_unpack"), nclass=6, incs=("xml_pack_base.h", "xml_unpack_base.h"), feat="xml", nraw=5, xopts=(), **kw):
        super().__init__(c, idx, std, feat, list(actions), opts=["-nodef", "-typeName"] + (["-onbase"] if idx % 2 == 0 else []) + list(xopts), nclass=nclass, xexp=True, onbase=idx % 2 == 0, **kw)
        self.tys = self.alltys(nraw) if self.ok else []
        self.incs = list(incs)

    def build(self, calls, exe="t", pre="", keys="xml", hdr="h_xml.h", flags=(), san=True, main="main.cc"):
        m = models.prelude((self.incs, ["h_xmlexp.h"], [hdr]))
        m += "#include \"classdesc_epilogue.h\"\n" + pre
        m += "int main(int argc, char** argv) {\n std::string mode=argv[1]; uint64_t seed=strtoull(argv[2],0,10); unsigned iters=atoi(argv[3]); int from=atoi(argv[4]); const char* arg=argc>5? argv[5]: \"\"; (void)arg; (void)from; (void)iters;\n"
        m += calls + " report().done(); return 0;}\n"
        self.write(main, m)
        self.exe = os.path.join(self.dir, exe)
        return self.c.compile_or_violate(keys, self.exe, [os.path.join(self.dir, main)], keep=self.files(), std=models.INC[self.std], incs=[self.dir], flags=list(flags), san=san, libs=())

    def unordered(self, t):
        return self.model.contains(t, {"uset", "umap", "ummap"})
