"""Render /repo's templates and compile all its main sources into a scratch directory."""
import glob, os, shutil, subprocess, sys, tempfile, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
JAVA_HOME = '/usr/lib/jvm/java-17-openjdk-amd64'
GR = '/root/.gradle/caches/modules-2/files-2.1'


def jar(pattern):
    r = glob.glob(os.path.join(GR, pattern), recursive=True)
    r = [x for x in r if not x.endswith('-sources.jar')]
    if not r: raise RuntimeError('missing jar ' + pattern)
    return sorted(r)[0]


class BuildError(Exception): pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd[:6]), r.stdout[-4000:]))
    return r.stdout


def build(out):
    """-> classes dir"""
    os.makedirs(out, exist_ok=True)
    gen, classes, tool = (os.path.join(out, d) for d in ('gen', 'classes', 'tool'))
    for d in (gen, classes, tool): os.makedirs(d, exist_ok=True)
    java, javac = JAVA_HOME + '/bin/java', JAVA_HOME + '/bin/javac'
    fm = jar('org.freemarker/freemarker/**/freemarker-*.jar')
    here = os.path.dirname(os.path.abspath(__file__))
    run([javac, '-d', tool, '-cp', fm, os.path.join(here, 'gen', 'Generate.java')])
    src = os.path.join(REPO, 'collections/src/main')
    run([java, '-XX:TieredStopAtLevel=1', '-cp', tool + ':' + fm, 'Generate', os.path.join(src, 'templates'), gen,
         'BoolIndexedCollection.java', 'BaseBoolHeap.java', 'BaseBoolIndex.java', 'BoolIndexedSet.java'])
    cp = jar('com.github.spotbugs/spotbugs-annotations/**/spotbugs-annotations-*.jar') + ':' + \
        jar('com.google.code.findbugs/jsr305/**/jsr305-*.jar')
    files = []
    for root in (gen, os.path.join(src, 'java')):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs if f.endswith('.java') and f not in ('module-info.java',)]
    lst = os.path.join(out, 'files.txt')
    open(lst, 'w').write('\n'.join(sorted(files)))
    run([javac, '-J-XX:TieredStopAtLevel=1', '-J-Xmx3g', '-g', '-nowarn', '-proc:none', '-d', classes, '-cp', cp, '@' + lst])
    return classes


if __name__ == '__main__':
    print(build(sys.argv[1]))
