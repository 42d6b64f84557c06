"""Rewrites the "fixed:" lines of known_findings.jsonl from the fix: commits in /repo (order of commits); run by hand."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '''recip_cell C01|grid_in_cell C01|crys.angle C01|coord_trans C02|coord_trans3d C02|cart2frac C02|nearest_neighbors C04|rpdf C05|each loop iterates C08|Structure.copy C09|crys.concatenate C09|crys.mix C09|crys.mean C09|crys.scell C10
one or two steps C12|velocity_traj C12|one-step cell C06|integer cryst_const C06|convert volume C07|signal. C16|crys.smooth C13|sliceput C20|num.sum C20|order_similar C20|polyfit C17|PolyFit1D C17|rbf C19|HarmonicThermo C21|Gibbs C21|EosFit C22|ElkEOSFit C22|SQLiteDB C23
toslice C26|FileTemplate C24|ParameterStudy C24|Calculation C24|template_replace C25|readtxt C27|open_and_close C27|CifFile C29|PDBFile C29|write_h5 C30|PWscf parsers C31|PwMDOutputFile C31|Cp2kSCF C32|single time step C32|default_units C35|get_struct() C35|LAMMPS dump C33|kpoints_str C36
SpecialPointsPath C38|plot_dis C38|RandomStructure C39|plotlines3d C40|clean_ax3d C40|color_ax C40|collect_legends C40|Data2D C40|new_axis C40|smooth_color C40|calculator C41|element 117 C42|TagTimer C42|cif2any C43|cut-c C43|ViewFactory C44|EosFit.spl C22|find_peaks C16|Fit1D root search C18'''
M = [x.rsplit(' ', 1) for l in M.splitlines() for x in l.split('|')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '656cf2e..HEAD'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    p = [b for a, b in M if a in s]
    assert p, l
    # the most specific match is the longest
    p = max(((len(a), b) for a, b in M if a in s))[1]
    out.append('fixed: property=%s %s %s' % (p, h, s[5:]))
f = os.path.join(V, 'known_findings.jsonl')
old = [l for l in open(f).read().splitlines() if l.startswith('{')]
open(f, 'w').write('\n'.join(old + out) + '\n')
print(len(out), 'fixed')
