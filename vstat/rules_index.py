from rules import kpf, ilqr, ilqr2, par, al, al2, life, traj, diff, adapt
import rules.misc
import rules.conc
import rules.prof
import rules.stats
import rules.opts
import rules.entry
import rules.profstat
import rules.exder
import rules.conlog
import rules.probdef
