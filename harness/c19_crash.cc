// C19: kills the process at every file system call of the last step of every
// history, reopens the database and compares it to what was acknowledged.
#include "crashdb.hpp"

int main(int argc, char** argv) {
    mc::Driver d("C19");
    bool deep = mc::thorough();
    d.add({"writes", [=](Gen& g) { for (int n = 0; n <= (deep ? 5 : 4); n++) words(g, "wbfco", n); }, check_once,
           "all histories of up to 4 steps (thorough 5): write, batch of 4 records, flush, compaction, reopening; killed at every file system call of the last one, writes done in parts; reopened, compared, written to and reopened again", 300});
    d.add({"branches", [=](Gen& g) {
               for (int n = 1; n <= (deep ? 5 : 3); n++) words(g, "wsfond", n, "", "n");
               if (!deep) words(g, "wsfod", 3, "n");
               for (int n = 0; n <= (deep ? 3 : 1); n++) words(g, "stfonB", n, "wn", "", 2);
           }, check_once,
           "all histories of up to 4 steps (thorough 5) with a branch created in them: write to either, flush, reopening, drop", 300});
    d.add({"big", [=](Gen& g) { for (int n = 1; n <= (deep ? 3 : 2); n++) words(g, "lBfo", n, "", "B", 8); }, check_once,
           "histories of up to 2 steps (thorough 3) with batches of 1.1 MB, which take many log blocks and several writes", 300});
    d.add({"twice", [=](Gen& g) { if (!deep) { for (string w : {"", "w", "wf"}) for (int m = 0; m < 16; m++) g.add("C" + w + " " + to_string(m) + " 16"); return; } for (int n = 0; n <= 2; n++) words(g, "wbfon", n, "", "", 16); }, check_again,
           "histories of up to 2 steps killed at every call of the last one, then killed again at every call of the reopening", 900});
    return d.main(argc, argv);
}
