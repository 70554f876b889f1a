"""Regenerates known_findings.txt; P lists the property of each fix commit, oldest first."""
import subprocess
P='P01 P02 P02 P02 P05 P05 P05 P06 P06 P06 P07 P03 P07 P07 P07 P04 P04 P27 P04 P04 P04 P09 P09 P09 P09 P09 P10 P10 P07 P07 P04 P02 P09 P25 P14 P11 P28 P13 P14 P14 P12 P12 P28 P28 P28 P21 P12 P12 P12 P13 P20 P20 P03 P20 P16 P16 P16 P16 P16 P16 P16 P18 P18 P18 P18 P27 P27 P27 P24 P26 P27 P15 P20 P22 P22 P22 P22 P22 P19 P19 P23 P22 P12 P22 P22 P22 P22 P10 P29 P29 P29 P29 P29 P29 P11 P06 P28 - P31 - P32 P09 P20 P06 P11 P15 P31'.split()
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','71831dd..HEAD'],text=True).splitlines()
assert len(P)==len(log),(len(P),len(log))
lines=[]
for p,l in zip(P,log):
    if p=='-': continue     # taken back
    h,s=l.split(' ',1); lines.append('fixed: property=%s %s %s'%(p,h,s[5:]))
open('/verif/known_findings.txt','w').write("""# Genuine defects of curtacircuitos/pcb-tools found by the checks.
# finding: property=<id> id=<specific input/history> <what fails>      (recorded, not repaired)
# fixed:   property=<id> <commit in /repo> <what failed before>         (repaired; suppresses nothing)
finding: property=P07 id=macro-params-converted-rewritten a macro used by several apertures with different parameters, in a file converted to other units and then written: all apertures of the macro get the last one's evaluation
finding: property=P22 id=layers-of-different-units layers in inches and in millimetres rendered on one context: the units are ignored and the later layers are drawn 25.4 times too large or too small
"""+'\n'.join(lines)+'\n')
