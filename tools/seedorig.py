"""seedorig.py: for every planted bug, how many of the lines its patch removes are lines of the original repository"""
import glob,re,subprocess,sys,os
BASE=sys.argv[1] if len(sys.argv)>1 else '34ab8f9'
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f=None; n=orig=0; line=0
    for l in open(d):
        if l.startswith('--- a/'): f=l[6:].strip()
        elif l.startswith('@@'):
            line=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b=subprocess.run(['git','-C','/repo','blame','-s','-l','-L%d,%d'%(line,line),'HEAD','--',f],capture_output=True,text=True).stdout
            n+=1
            c=b.split()[0].lstrip('^')
            if subprocess.run(['git','-C','/repo','merge-base','--is-ancestor',c[:39],BASE]).returncode==0 and b.split(')',1)[1].strip(): orig+=1
            line+=1
        elif l.startswith(' '): line+=1
    print(os.path.basename(os.path.dirname(d)),'removed',n,'original',orig)
