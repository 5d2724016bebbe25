// prints what the command line of a micromechanics program means, or writes an XDMF description of a grid
#include "command_line_args.h"
#include "XdmfUniformGridWriter.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>

static void show(const char* k, const std::string& v)
{
    printf("%s ", k);
    for (unsigned char c : v) { printf("%02x", c); }
    printf("\n");
}

int main(int argc, char* argv[])
{
    if (argc > 1 && !strcmp(argv[1], "--xdmf")) {
        // file n1 n2 n3 grid (name type numberType precision location)*
        XdmfUniformGridWriter w(atoi(argv[3]), atoi(argv[4]), atoi(argv[5]));
        w.open_file(argv[2]);
        w.write_header(argv[6]);
        for (int k = 7; k + 4 < argc; k += 5) {
            std::string t = argv[k + 2], p = argv[k + 3];
            if (t == "int") { int v; w.deduce_attribute_number_type(&v, t, p); }
            else if (t == "float") { float v; w.deduce_attribute_number_type(&v, t, p); }
            else if (t == "double") { double v; w.deduce_attribute_number_type(&v, t, p); }
            w.write_attribute(argv[k], argv[k + 1], t.c_str(), p.c_str(), argv[k + 4]);
        }
        w.write_footer();
        w.close_file();
        return 0;
    }
    CommandLineArgs a;
    a.parse_command_line(argc, argv);
    show("f", a.input_filename);
    show("e", a.EulerAnglesFullPath);
    show("g", a.FeatureIdsFullPath);
    show("p", a.PhaseIdsFullPath);
    printf("m %d\nu %d\n", a.micro_filetype, a.EulerAnglesUnit);
    return 0;
}
