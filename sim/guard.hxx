#pragma once
namespace guard
{
extern bool own;                /* the simulator is running: what it allocates is not t8code's */
struct Sim { bool old = own; Sim () { own = true; } ~Sim () { own = old; } };
void check_all ();              /* all guard zones are intact */
void mark (bool with_traces);   /* count from here */
int lines ();                   /* lines read by getline that were not freed */
long live (bool print);         /* blocks of operator new since the mark that are still alive */
}
