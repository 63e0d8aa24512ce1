"""C45 local mirrors of the archives of the processing centers"""
import calendar, contextlib, gzip, io, json, os, pathlib, tarfile, time, types, ftplib
import numpy as np
from symx.harness import harness, doc

class World:
    """times of modification of local files, remote files, and what was asked of the servers"""
    def __init__(self, c, base):
        self.c, self.base, self.mt, self.remote, self.asked, self.z = c, pathlib.Path(base), {}, {}, [], {}
    def local(self, name, text, mtime=None):
        f = self.base/name
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_bytes(text)
        if mtime is not None:
            self.mt[str(f)] = mtime
        return f
    def tree(self):
        return {str(f.relative_to(self.base)): f.read_bytes() for f in sorted(self.base.rglob('*')) if f.is_file()}

class Delegate:
    """a module with some names replaced"""
    def __init__(self, m, **kw):
        self.__dict__.update(kw, _m=m)
    def __getattr__(self, k):
        return getattr(self._m, k)

class Response(io.BytesIO):
    def __init__(self, data, mtime):
        super().__init__(data)
        self.headers = {'last-modified': time.strftime('%a, %d %b %Y %H:%M:%S GMT', time.gmtime(mtime))} if isinstance(mtime, int) else {}
        self.status = 200

@contextlib.contextmanager
def world(c, P, base):
    w = World(c, base)
    class Path(pathlib.PosixPath):
        def stat(self, **kw):
            s = super().stat(**kw)
            m = w.mt.get(str(pathlib.Path(self)), s.st_mtime)
            return types.SimpleNamespace(st_mtime=m, st_atime=s.st_atime, st_mode=s.st_mode, st_size=s.st_size)
    def utime(f, times):
        w.mt[str(pathlib.Path(f))] = times[1]
    def zipped(filename=None, mode=None, compresslevel=9, fileobj=None, mtime=None):
        if mtime is not None:
            w.z[str(filename)] = mtime
        return gzip.GzipFile(filename, mode, compresslevel, fileobj, mtime if isinstance(mtime, (int, type(None))) else 0)
    class FTP:
        def __init__(self, host='', timeout=None, **kw):
            self.host = host
        def login(self, *a, **kw): pass
        def quit(self): pass
        def close(self): pass
        def key(self, p):
            return posix(self.host, p)
        def nlst(self, p=''):
            p, n = p.rstrip('/'), len(self.key(p)) + 1
            return [f'{p}/{x}' for x in dict.fromkeys(k[n:].split('/')[0] for k in w.remote if k.startswith(self.key(p) + '/'))]
        def sendcmd(self, s):
            k = self.key(s.split(' ', 1)[1])
            if k not in w.remote:
                raise ftplib.error_perm('550 not a plain file')
            return '213 ' + time.strftime('%Y%m%d%H%M%S', time.gmtime(w.remote[k][1]))
        def retrbinary(self, s, callback, blocksize=8192, **kw):
            k = self.key(s.split(' ', 1)[1])
            w.asked.append(k)
            b = w.remote[k][0]
            for i in range(0, len(b), 7):
                callback(b[i:i+7])
    def posix(*a):
        return '/'.join(x.strip('/') for x in a if x)
    class Request:
        def __init__(self, url, **kw):
            self.url = url
    def urlopen(r, timeout=None, context=None):
        url = getattr(r, 'url', r)
        w.asked.append(url)
        x = w.remote[url]
        return Response(*x) if isinstance(x, tuple) else io.BytesIO(x)
    u = c.gt.utilities
    new = [(u, 'ftplib', Delegate(u.ftplib, FTP=FTP)), (u, 'urllib2', Delegate(u.urllib2, Request=Request, urlopen=urlopen)), (u, 'build_opener', lambda *a, **kw: None),
        (u, 'os', Delegate(os, utime=utime)), (u, 'pathlib', Delegate(pathlib, Path=Path))]
    if P is not None:
        new += [(P, 'os', Delegate(os, utime=utime)), (P, 'pathlib', Delegate(pathlib, Path=Path))]
        for n, v in (('ftplib', Delegate(ftplib, FTP=FTP)), ('gzip', Delegate(gzip, GzipFile=zipped))):
            if hasattr(P, n):
                new.append((P, n, v))
    old = [(m, n, getattr(m, n)) for m, n, v in new]
    for m, n, v in new:
        setattr(m, n, v)
    try:
        yield w
    finally:
        for m, n, v in old:
            setattr(m, n, v)

def stamp(c, name, top=2000000000):
    """a time, and the number of its even second"""
    p = c.int(name, 0, top)
    return 2*p + c.real(name + 's', 0.0, 1.99), p

def clock(w, f):
    return w.mt.get(str(f), None)

URL, HOST = 'https://host/dir/file.gfc', 'host'

@harness('C45', configs=[dict(prog=p, zipped=z) for p, z in (('itsg_graz_grace_sync', False), ('esa_costg_swarm_sync', False), ('podaac_cumulus', False), ('podaac_cumulus', True), ('s3', False), ('s3', True), ('gfz_icgem_costg_ftp', False), ('gfz_isdc_grace_ftp', False), ('gfz_isdc_dealiasing_ftp', False))])
def decision(c, prog, zipped):
    """a file is copied when absent, older, different or forced, and only then"""
    P = c.script('podaac_cumulus' if prog == 's3' else prog)
    with world(c, P, c.tmpdir()) as w:
        rt, q = stamp(c, 'remote')
        kw = dict(CLOBBER=c.pick(c.bool('clobber')), MODE=0o640)
        lists = prog in ('itsg_graz_grace_sync', 'esa_costg_swarm_sync', 'gfz_icgem_costg_ftp', 'gfz_isdc_grace_ftp')
        sums = prog in ('esa_costg_swarm_sync', 'gfz_icgem_costg_ftp', 'gfz_isdc_grace_ftp')
        if lists:
            kw['LIST'] = c.pick(c.bool('list'))
        if sums:
            kw['CHECKSUM'] = c.pick(c.bool('checksum'))
        if zipped:
            kw['GZIP'] = True
        data = b'remote file'*3
        name = 'file.gfc.gz' if zipped else 'file.gfc'
        f = w.base/name
        exists = c.pick(c.bool('exists'))
        p = data0 = None
        if exists:
            lt, p = stamp(c, 'local')
            data0 = data if c.pick(c.bool('identical')) else b'local file'
            w.local(name, data0, lt)
            f.chmod(0o600)
        ftp = 'ftp' in prog
        # time of the server is that of the list of files
        key = 'host/dir/file.gfc' if ftp else URL
        w.remote[key] = (data, 1234567890)
        if ftp:
            P.ftp_mirror_file(P.ftplib.FTP(HOST), ['host', 'dir', 'file.gfc'], rt, f, **kw)
        elif prog == 's3':
            P.s3_pull_file(dict(Body=io.BytesIO(data)), rt, f, **kw)
        else:
            P.http_pull_file(URL, rt, f, **kw)
        if not exists:
            new = True
        elif kw.get('CHECKSUM'):
            new = data0 != data
        else:
            new = c.pick(q > p)
        copied = (new or kw['CLOBBER']) and not kw.get('LIST')
        if copied:
            b = f.read_bytes()
            c.same(gzip.decompress(b) if zipped else b, data, 'content of the copy')
            c.close(clock(w, f), rt, 0, 'time of the copy')
            c.same(f.stat().st_mode & 0o777, 0o640, 'permissions of the copy')
        elif exists:
            c.same(f.read_bytes(), data0, 'file kept')
            c.close(clock(w, f), lt, 0, 'time kept')
            c.same(f.stat().st_mode & 0o777, 0o600, 'permissions kept')
        else:
            c.true(not f.exists(), 'nothing written')
        if not copied and not kw.get('CHECKSUM'):
            c.same(w.asked, [], 'nothing downloaded')
        c.same(sorted(w.tree()), [name] if (copied or exists) else [], 'files')

@harness('C45', configs=[dict(head=h) for h in (1000000001, 1700000000, 2147483649, 4000000002)])
def compressed(c, head):
    """members of archives, compressed with the time of the member"""
    P = c.script('cnes_grace_sync')
    with world(c, P, c.tmpdir()) as w:
        data = b'coefficients'*4
        buf = io.BytesIO()
        with tarfile.open(fileobj=buf, mode='w:gz') as t:
            i = tarfile.TarInfo('data/GSM-2_file.txt')
            i.size, i.mtime = len(data), 12345
            t.addfile(i, io.BytesIO(data))
        tar = tarfile.open(fileobj=io.BytesIO(buf.getvalue()), mode='r:gz')
        m, = tar.getmembers()
        m.mtime = c.int('member', 0, 4294967295)
        f = w.base/'GSM-2_file.gz'
        exists = c.pick(c.bool('exists'))
        old = None
        if exists:
            with gzip.GzipFile(f, 'wb', 9, None, head) as g:
                g.write(b'older')
            old = f.read_bytes()
            w.mt[str(f)] = lt = c.int('local', 0, 4294967295)
        clobber = c.pick(c.bool('clobber'))
        P.gzip_copy_file(tar, m, f, clobber, 0o640)
        if not exists or clobber or c.pick(m.mtime > head):
            c.same(gzip.decompress(f.read_bytes()), data, 'content')
            c.close(w.z[str(f)], m.mtime, 0, 'time in the header')
            c.close(clock(w, f), m.mtime, 0, 'time of the file')
            c.same(f.stat().st_mode & 0o777, 0o640, 'permissions')
        else:
            c.same(f.read_bytes(), old, 'file kept')
            c.close(clock(w, f), lt, 0, 'time kept')

# ---------------------------------------------------------------- programs
T0 = 1262401445

def have(c, w, name, remote, clobber, checksum=False, listing=False, data0=None):
    """maybe a local copy: returns a function with the content expected after the program"""
    data, rt = remote
    if not c.pick(c.bool('has ' + name)):
        return lambda: None if listing else data
    if data0 is None:
        data0 = data if checksum and c.pick(c.bool('equal ' + name)) else b'local ' + name.encode()
    lt, p = stamp(c, 'time ' + name)
    w.local(name, data0, lt)
    def after():
        new = (data0 != data) if checksum else c.pick(rt//2 > p)
        return data if (new or clobber) and not listing else data0
    return after

def compare(c, w, expected, indices, label='files'):
    e = {k: f() for k, f in expected.items()}
    e = {k: v for k, v in e.items() if v is not None}
    for k, f in indices.items():
        e[k] = ''.join(x + '\n' for x in f(e)).encode()
    t = w.tree()
    c.same(sorted(t), sorted(e), label)
    for k in e:
        c.same(t[k], e[k], 'content of ' + k)

def put(w, key, k):
    w.remote[key] = (b'remote ' + key.encode(), T0 + 1000001*k)
    return w.remote[key]

@harness('C45', configs=[dict(rel=r, lmax=l, clobber=x, listing=y) for r, l, x, y in (('Grace2018', 60, False, False), ('Grace2014', 120, False, False), ('Grace2016', 96, True, False), ('Grace_operational', 60, False, True))], mix=8)
def graz(c, rel, lmax, clobber, listing):
    """mirror of the server of Graz"""
    P = c.script('itsg_graz_grace_sync')
    with world(c, P, c.tmpdir()) as w:
        root = f'http://ftp.tugraz.at/outgoing/ITSG/GRACE/ITSG-{rel}/monthly/'
        back = root + ('background' if rel == 'Grace2014' else 'monthly_background')
        main = root + f'monthly_n{lmax}'
        year = {'Grace2014': '2014', 'Grace2016': '2016'}.get(rel, '2018')
        lists = {back: [('model_atmosphere_n180_2010-02.gfc', 'GAA'), ('model_ocean_n180_2010-02.gfc', 'GAB'), ('model_dealiasing_2011-12.gfc', 'GAC'), ('model_oceanBottomPressure_n180_2010-02.gfc', 'GAD'), ('readme.txt', None)],
            main: [(f'ITSG-{rel}_n{lmax}_2010-03.gfc', 'GSM'), (f'ITSG-{rel}_n{lmax}_2009-01.gfc', 'GSM'), ('other_2009-01.gfc', None)]}
        expected, k = {}, 0
        for url, files in lists.items():
            rows = []
            for f, d in files:
                k += 1
                t = T0//60*60 + 1000020*k
                w.remote[f'{url}/{f}'] = (b'remote ' + f.encode(), t)
                rows.append(f'<tr><td valign="top"><img src="x"></td><td><a href="{f}">{f}</a></td><td align="right">{time.strftime("%Y-%m-%d %H:%M", time.gmtime(t))}  </td><td align="right">1.0M</td></tr>')
                if d:
                    n = f'GRAZ/{year}/{d}/{f}'
                    # local copies of some of the files
                    expected[n] = have(c, w, n, w.remote[f'{url}/{f}'], clobber, listing=listing) if k in (1, 4, 6) else (lambda v=(None if listing else w.remote[f'{url}/{f}'][0]): v)
            w.remote[url] = ('<html><body><table>' + ''.join(rows) + '</table></body></html>').encode()
        # file kept from before
        n = f'GRAZ/{year}/GSM/ITSG-{rel}_n{lmax}_2002-04.gfc'
        w.local(n, b'x')
        w.local(f'GRAZ/{year}/GSM/index.txt', b'old\n')
        w.local(f'GRAZ/{year}/GSM/notes.txt', b'y')
        expected[n] = lambda: b'x'
        expected[f'GRAZ/{year}/GSM/notes.txt'] = lambda: b'y'
        P.itsg_graz_grace_sync(w.base, RELEASE=rel, LMAX=lmax, TIMEOUT=10, LIST=listing, CLOBBER=clobber, MODE=0o775)
        dirs = ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']
        compare(c, w, expected, {f'GRAZ/{year}/{d}/index.txt': (lambda e, d=d: sorted(x.split('/')[-1] for x in e if x.startswith(f'GRAZ/{year}/{d}/') and x.endswith('gfc'))) for d in dirs})

@harness('C45', configs=[dict(mission=m, clobber=x, listing=y, checksum=z) for m, x, y, z in (('Grace', False, False, False), ('Grace-FO', False, False, True), ('Grace-FO', True, False, False), ('Swarm', False, True, False), ('Swarm', False, False, True))], mix=12)
def icgem(c, mission, clobber, listing, checksum):
    """mirror of combined models"""
    P = c.script('gfz_icgem_costg_ftp')
    with world(c, P, c.tmpdir()) as w:
        h = 'icgem.gfz-potsdam.de/02_COST-G/' + mission
        if mission == 'Swarm':
            files = [(f'GAX_products/{d}', d, f'{d}_Swarm_0103_0{i+1}_2014.{"gfc" if i % 2 else "ZIP"}') for i, d in enumerate(('GAA', 'GAB', 'GAC', 'GAD'))] + [('40x40', 'GSM', 'SW_OPER_EGF_SHA_2__20140101T000000_20140131T235959_0101.ZIP'), ('40x40', 'GSM', 'SW_OPER_EGF_SHA_2__20131201T000000_20131231T235959_0101.ZIP')]
        elif mission == 'Grace':
            files = [('GAX_products', 'GAC', 'GAC-2_2002095-2002120_GRAC_COSTG_BC01_0100.gfc'), ('unfiltered', 'GSM', 'GSM-2_2003001-2003031_GRAC_COSTG_BF01_0100.gfc'), ('unfiltered', 'GSM', 'GSM-2_2002095-2002120_GRAC_COSTG_BF01_0100.gfc')]
        else:
            files = [('', 'GSM', 'GSM-2_2019001-2019031_GRFO_COSTG_BF01_0100.gfc'), ('', 'GSM', 'GSM-2_2018152-2018181_GRFO_COSTG_BF01_0100.gfc')]
        expected, loc = {}, 'Swarm' if mission == 'Swarm' else 'COSTG'
        for k, (d, ds, f) in enumerate(files):
            r = put(w, '/'.join(x for x in (h, d, f) if x), k)
            put(w, '/'.join(x for x in (h, d, 'readme.txt') if x), k)
            n = f'{loc}/RL01/{ds}/{f}'
            expected[n] = have(c, w, n, r, clobber, checksum, listing) if k % 2 == 0 else (lambda v=None if listing else r[0]: v)
        w.local(f'{loc}/RL01/GSM/{files[-1][2][:9]}', b'junk')
        expected[f'{loc}/RL01/GSM/{files[-1][2][:9]}'] = lambda: b'junk'
        P.gfz_icgem_costg_ftp(w.base, MISSION=mission, RELEASE='RL01', TIMEOUT=10, LIST=listing, CLOBBER=clobber, CHECKSUM=checksum, MODE=0o775)
        compare(c, w, expected, {f'{loc}/RL01/{d}/index.txt': (lambda e, d=d: sorted(x.split('/')[-1] for x in e if x.startswith(f'{loc}/RL01/{d}/') and x.endswith(('gfc', 'ZIP')))) for d in {x[1] for x in files}})

def newest(names):
    """last version of the files of each span of dates"""
    d = {}
    for n in sorted(names):
        d[n[6:21]] = n
    return sorted(d.values())

@harness('C45', configs=[dict(proc=p, version=v, clobber=x, listing=y, checksum=z, news=n) for p, v, x, y, z, n in ((['CSR'], ['0', '1'], False, False, False, False), (['JPL'], ['0', '0'], False, False, True, False), (['GFZ'], ['0', '2'], True, False, False, True), (['GFZ', 'CSR'], ['0', '1'], False, True, False, True))])
def isdc(c, proc, version, clobber, listing, checksum, news):
    """mirror of the products of the processing centers, technical notes and newsletters"""
    P = c.script('gfz_isdc_grace_ftp')
    code = dict(CSR='UTCSR', GFZ='GFZOP', JPL='JPLEM')
    with world(c, P, c.tmpdir()) as w:
        h, expected, idx, k = 'isdcftp.gfz-potsdam.de/', {}, {}, 0
        def add(remote, local, maybe=False):
            nonlocal k
            k += 1
            r = put(w, h + remote, k)
            if local:
                expected[local] = have(c, w, local, r, clobber, checksum, listing) if maybe else (lambda v=None if listing else r[0]: v)
        TN = 'DOCUMENTS/TECHNICAL_NOTES/'
        add('grace-fo/' + TN + 'TN-13_GEOC_CSR_RL06.txt', 'geocenter/TN-13_GEOC_CSR_RL06.txt', True)
        add('grace-fo/' + TN + 'TN-13_GEOC_JPL_RL06.1.txt', 'geocenter/TN-13_GEOC_JPL_RL06.1.txt')
        add('grace/' + TN + 'TN-11_C20_SLR_RL06.txt', 'TN-11_C20_SLR.txt', True)
        add('grace/' + TN + 'TN-07_C20_SLR_RL05.txt', 'TN-07_C20_SLR.txt')
        add('grace-fo/' + TN + 'TN-14_C30_C20_SLR_GSFC.txt', 'TN-14_C30_C20_GSFC_SLR.txt')
        add('grace/' + TN + 'TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz', 'TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz')
        add('grace/' + TN + 'TN-01_other.pdf', None)
        add('grace/DOCUMENTS/NEWSLETTER/2011/GRACE_SDS_NL_0012.pdf', 'newsletters/GRACE_SDS_NL_0012.pdf' if news else None)
        add('grace-fo/DOCUMENTS/NEWSLETTER/2019/GRACE_FO_SDS_NL_0003.pdf', 'newsletters/GRACE_FO_SDS_NL_0003.pdf' if news else None)
        for p in proc:
            for ds in ['GAC', 'GAD', 'GSM'] if p == 'CSR' else ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']:
                for mi, s, v, spans in (('grace', 'GRAC', version[0], ('2003001-2003031', '2002095-2002120')), ('grace-fo', 'GRFO', version[1], ('2018152-2018181',))):
                    d = f'{mi}/Level-2/{p}/RL06' + (f'.{v}' if int(v) else '') + '/'
                    for i, x in enumerate(spans):
                        f = f'{ds}-2_{x}_{s}_{code[p]}_{"BA" if ds == "GSM" else "BC"}01_06{int(v):02d}.gz'
                        add(d + f, f'{p}/RL06/{ds}/{f}', ds == 'GSM' and i == 0 and p == proc[0])
                    # a product of other degrees is copied but not listed
                    if ds == 'GSM':
                        f = f'GSM-2_{spans[0]}_{s}_{code[p]}_BB01_06{int(v):02d}.gz'
                        add(d + f, f'{p}/RL06/GSM/{f}')
                # former version, to be left out of the index
                f = f'{ds}-2_2018152-2018181_GRFO_{code[p]}_{"BA" if ds == "GSM" else "BC"}01_0600.gz'
                if version[1] != '0':
                    w.local(f'{p}/RL06/{ds}/{f}', b'former')
                    expected[f'{p}/RL06/{ds}/{f}'] = lambda: b'former'
                idx[f'{p}/RL06/{ds}/index.txt'] = lambda e, q=f'{p}/RL06/{ds}/': newest(x[len(q):] for x in e if x.startswith(q) and 'BB01' not in x)
        P.gfz_isdc_grace_ftp(w.base, PROC=proc, DREL=['RL06'], VERSION=version, NEWSLETTERS=news, TIMEOUT=10, LIST=listing, CLOBBER=clobber, CHECKSUM=checksum, MODE=0o775)
        compare(c, w, expected, idx)

@harness('C45', configs=[dict(rel=r, tar=t, clobber=x, years=y) for r, t, x, y in (('RL06', False, False, None), ('RL05', False, True, [2004]), ('RL06', True, False, [2004, 2005]), ('RL05', True, True, None))], mix=12)
def daily(c, rel, tar, clobber, years):
    """mirror of dealiasing products, by day or in archives of a month"""
    P = c.script('gfz_isdc_dealiasing_ftp')
    with world(c, P, c.tmpdir()) as w:
        h, expected, n = f'isdcftp.gfz-potsdam.de/grace/Level-1B/GFZ/AOD/{rel}/', {}, rel[2:]
        months, ext = {}, 'tgz' if rel == 'RL06' else 'tar.gz'
        for k, (y, m, d) in enumerate([(2004, 2, 28), (2004, 2, 29), (2004, 12, 1), (2005, 2, 1), (2005, 3, 7)]):
            f = f'AOD1B_{y}-{m:02d}-{d:02d}_X_{n}.asc.gz'
            r = put(w, h + f'{y}/{f}', k)
            put(w, h + f'{y}/AOD1B_{y}-{m:02d}-{d:02d}_X_{n}.txt', k)
            if m == 12 or (years and y not in years):
                continue
            months.setdefault((y, m), []).append((f, r))
            if not tar:
                g = f'AOD1B/{rel}/{f}'
                expected[g] = have(c, w, g, r, clobber) if k in (0, 3) else (lambda v=r[0]: v)
        had = {}
        if tar:
            for y, m in months:
                if c.pick(c.bool(f'has {y} {m}')):
                    had[y, m] = w.local(f'AOD1B/{rel}/AOD1B_{y}-{m:02d}_{n}.{ext}', b'archive')
        P.gfz_isdc_dealiasing_ftp(w.base, rel, YEAR=years, MONTHS=[2, 3], TAR=tar, TIMEOUT=10, CLOBBER=clobber, MODE=0o775)
        if not tar:
            compare(c, w, expected, {})
            return
        c.same(sorted(w.tree()), sorted(f'AOD1B/{rel}/AOD1B_{y}-{m:02d}_{n}.{ext}' for y, m in months), 'archives')
        for (y, m), files in months.items():
            f = w.base/f'AOD1B/{rel}/AOD1B_{y}-{m:02d}_{n}.{ext}'
            if (y, m) in had and not clobber:
                c.same(f.read_bytes(), b'archive', 'archive kept')
            else:
                with tarfile.open(f, 'r:gz') as t:
                    c.same([(x.name, int(x.mtime), t.extractfile(x).read()) for x in t.getmembers()], [(a, r[1], r[0]) for a, r in sorted(files)], 'members')

@harness('C45', configs=[dict(count=n, clobber=x, listing=y, checksum=z) for n, x, y, z in ((3, False, False, False), (500, False, False, False), (503, False, False, True), (2, True, False, False), (1001, False, True, False))], mix=16)
def swarm(c, count, clobber, listing, checksum):
    """mirror of models of Swarm, listed in pages"""
    P = c.script('esa_costg_swarm_sync')
    import urllib.parse
    with world(c, P, c.tmpdir()) as w:
        U, rows, expected, names = 'https://swarm-diss.eo.esa.int', [], {}, []
        for k in range(count):
            # models are at the ends of the list
            f = f'SW_OPER_EGF_SHA_2__20{14+k % 7}0{1+k % 9}01T000000_20{14+k % 7}0{1+k % 9}28T235959_01{k:02d}.ZIP' if k in (0, 1, count-1, 500) else f'file{k}.txt'
            t = T0 + 1000001*k
            rows.append(dict(name=f, mtime=t, size=1))
            if f.startswith('SW'):
                names.append(f)
                r = (b'remote ' + f.encode(), t)
                w.remote[U + '/?do=download&' + urllib.parse.urlencode({'file': 'swarm/Level2longterm/EGF/' + f})] = r
                n = f'Swarm/RL01/GSM/{f}'
                expected[n] = have(c, w, n, r, clobber, checksum, listing) if k in (0, count-1) else (lambda v=None if listing else r[0]: v)
        for pos in range(0, count+1, 500):
            w.remote[U + '/?do=list&' + urllib.parse.urlencode({'maxfiles': 500, 'pos': pos, 'file': 'swarm/Level2longterm/EGF'})] = json.dumps(dict(results=rows[pos:pos+500])).encode()
        P.esa_costg_swarm_sync(w.base, RELEASE='RL01', TIMEOUT=10, LIST=listing, CLOBBER=clobber, CHECKSUM=checksum, MODE=0o775)
        compare(c, w, expected, {'Swarm/RL01/GSM/index.txt': lambda e: names})

@harness('C45', configs=[dict(rel=r, log=l, clobber=x) for r, l, x in (('RL02', True, False), ('RL05', False, False), ('RL05', True, True), ('RL04', False, False), ('RL01', False, False), ('RL03', True, False))])
def cnes(c, rel, log, clobber):
    """mirror of archives of models of CNES"""
    P = c.script('cnes_grace_sync')
    G = 'http://gravitegrace.get.obs-mip.fr/grgs.obs-mip.fr/data/'
    A = {'RL01': {'RL01/variable/archives/GRGS.SH_models.GRACEFORMAT.RL01.tar.gz': ['GSM'], 'RL01/variable/archives/GRGS.dealiasing.RL01.tar.gz': ['GAC']},
        'RL02': {'RL02/variable/archives/GRGS.SH_models.GRACEFORMAT.all.tar.gz': ['GSM'], 'RL02/variable/archives/GRGS.dealiasing.GRACEFORMAT.all.tar.gz': ['GAA', 'GAB']},
        'RL03': {'RL03-v3/archives/CNES-GRGS.RL03-v3.monthly.coeff.tar.gz': ['GSM'], 'RL03/variable/archives/GRGS.RL03.dealiasing.monthly.tar.gz': ['GAA', 'GAB']},
        'RL04': {'RL04-v1/archives/CNES.RL04-v1.monthly.NEW_IERS2010_MEAN_POLE_CONVENTION.tar.gz': ['GSM']},
        'RL05': {'RL05/archives/CNES-GRGS.RL05.GRACE.monthly.tar.gz': ['GSM'], 'RL05/archives/CNES-GRGS.RL05.GRACE-FO.monthly.tar.gz': ['GSM'], 'RL05/archives/CNES-GRGS.RL05.monthly.dealiasing.tar.gz': ['GAA', 'GAB']}}[rel]
    with world(c, P, c.tmpdir()) as w:
        P0, P.logging = P.logging, Delegate(P.logging, basicConfig=lambda **kw: None)
        try:
            expected, idx, k, times = {}, {}, 0, {}
            for a, sets in A.items():
                buf = io.BytesIO()
                with tarfile.open(fileobj=buf, mode='w:gz') as t:
                    for ds in sets:
                        for y in (2003, 2002):
                            k += 1
                            data = f'{a} {ds} {y}'.encode()
                            i = tarfile.TarInfo(f'models/{ds}-2_{y}{k:03d}-{y}{k+30:03d}_0021_GRGS_GCM{k}_05.txt')
                            i.size, i.mtime = len(data), T0 + 100000*k
                            t.addfile(i, io.BytesIO(data))
                            n = f'CNES/{rel}/{ds}/{pathlib.PurePath(i.name).stem}.gz'
                            old = None
                            if k in (1, 3):
                                # copies of the same, an older and a later time
                                for j, dt in enumerate((-1, 0, 1)):
                                    if c.pick(c.bool(f'has {k} {j}')):
                                        old = dt
                                        f = w.base/n
                                        f.parent.mkdir(parents=True, exist_ok=True)
                                        with gzip.GzipFile(f, 'wb', 9, None, i.mtime + dt) as g:
                                            g.write(b'former')
                                        break
                            keep = old is not None and old >= 0 and not clobber
                            expected[n] = b'former' if keep else data
                            times[n] = i.mtime + (old if keep else 0)
                    i = tarfile.TarInfo('models/readme.txt')
                    t.addfile(i)
                w.remote[G + a] = (buf.getvalue(), T0 + 7777777)
                n = f'CNES/{rel}/' + a.split('/')[-1]
                expected[n] = buf.getvalue()
                times[n] = T0 + 7777777
                # local archive: absent, outdated or current
                if c.pick(c.bool('has ' + a)):
                    w.local(n, buf.getvalue() if c.pick(c.bool('equal ' + a)) else b'outdated', 1.0)
            P.cnes_grace_sync(w.base, DREL=[rel], TIMEOUT=10, LOG=log, CLOBBER=clobber, MODE=0o775)
        finally:
            P.logging = P0
        t = w.tree()
        for x in [x for x in t if x.startswith('CNES_sync')]:
            c.true(log, 'log file')
            del t[x]
        for ds in {d for s in A.values() for d in s}:
            q = f'CNES/{rel}/{ds}/'
            expected[q + 'index.txt'] = ''.join(sorted(x[len(q):] + '\n' for x in expected if x.startswith(q))).encode()
        c.same(sorted(t), sorted(expected), 'files')
        for n, v in expected.items():
            c.same(gzip.decompress(t[n]) if n.endswith('gz') and 'tar' not in n else t[n], v, 'content of ' + n)
            if n in times:
                m = int.from_bytes(t[n][4:8], 'little')
                if 'tar' not in n:
                    c.same(m, times[n], 'time in header of ' + n)
                if str(w.base/n) in w.mt:
                    c.same(w.mt[str(w.base/n)], times[n], 'time of ' + n)

class Client:
    def __init__(self, w):
        self.w = w
    def list_objects(self, Bucket=None, Prefix=None):
        return {}
    def get_object(self, Bucket=None, Key=None):
        return dict(Body=io.BytesIO(self.w.remote[f's3://{Bucket}/{Key}'][0]))

@harness('C45', configs=[dict(proc=p, endpoint=e, zipped=z, clobber=x, aod=a) for p, e, z, x, a in ((['CSR'], 's3', False, False, False), (['GFZ'], 'data', True, False, True), (['JPL'], 's3', True, True, True), (['CSR', 'JPL'], 'data', False, False, False))], mix=8)
def cumulus(c, proc, endpoint, zipped, clobber, aod):
    """mirror of the archive of JPL"""
    P = c.script('podaac_cumulus')
    code = dict(CSR='UTCSR', GFZ='GFZOP', JPL='JPLEM')
    with world(c, P, c.tmpdir()) as w:
        u, expected, idx = c.gt.utilities, {}, {}
        root = 's3://podaac-ops-cumulus-protected/' if endpoint == 's3' else 'https://archive.podaac.earthdata.nasa.gov/'
        asked = []
        def url(f):
            return root + 'X/' + f
        def entry(f, local, maybe, zipped):
            # any time
            p = c.int('remote ' + f, 0, 2000000000)
            data = b'remote ' + f.encode()
            w.remote[url(f)] = (data, None)
            lt = None
            if maybe and c.pick(c.bool('has ' + local)):
                lt, q = stamp(c, 'time ' + local)
                w.local(local, b'former', lt)
            expected[local] = lambda: (data if lt is None or clobber or c.pick(p > q) else b'former', zipped, 2*p)
            return (f, url(f), 2*p)
        lists, junk = {}, {}
        sfx = '.gz' if zipped else ''
        for p in proc:
            for ds in ['GAC', 'GAD', 'GSM'] if p == 'CSR' else ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']:
                q = f'{p}/RL06/{ds}/'
                for mi, s, v, spans in (('grace', 'GRAC', '0', ('2003001-2003031', '2002095-2002120')), ('grace-fo', 'GRFO', '3', ('2018152-2018181',))):
                    fs = [f'{ds}-2_{x}_{s}_{code[p]}_{"BA" if ds == "GSM" else "BC"}01_06{int(v):02d}' for x in spans]
                    lists[mi, p, ds] = (v, [entry(f, q + f + sfx, ds == 'GSM' and i == 0 and p == proc[0], zipped) for i, f in enumerate(fs)])
                f = f'{ds}-2_2018152-2018181_GRFO_{code[p]}_{"BA" if ds == "GSM" else "BC"}01_0600{sfx}'
                w.local(q + f, b'former')
                w.local(q + 'notes.txt', b'notes')
                junk[q + f] = b'former'
                junk[q + 'notes.txt'] = b'notes'
                idx[q + 'index.txt'] = newest([x[1] + sfx for x in []] + [y[0] + sfx for mi in ('grace', 'grace-fo') for y in lists[mi, p, ds][1]])
        if aod:
            lists['grace', 'GFZ', 'AOD1B'] = ('0', [entry('AOD1B_2004-02_06.tgz', 'AOD1B/RL06/AOD1B_2004-02_06.tgz', True, False)])
        TN = ['TN-13_GEOC_{}_RL06.3.txt', 'TN-14_C30_C20_GSFC_SLR.txt']
        def cmr(mission=None, center=None, release=None, level='L2', product=None, version='0', start_date=None, provider=None, endpoint=None, **kw):
            v, x = lists[mission, center, product]
            c.same((release, level, version, provider, endpoint), ('RL06', 'L1B' if product == 'AOD1B' else 'L2', v, 'POCLOUD', root and ('s3' if root.startswith('s3') else 'data')), 'query')
            return [[y[i] for y in x] for i in range(3)]
        def metadata(mission=None, center=None, release=None, version=None, provider=None, endpoint=None, **kw):
            out = [root + 'doc/gracefo_handbook.pdf']
            if version == '3':
                for f in TN:
                    f = f.format(center)
                    w.remote[root + 'doc/' + f] = (b'remote ' + f.encode(), None)
                    out.append(root + 'doc/' + f)
            return out
        old = u.cmr, u.cmr_metadata
        u.cmr, u.cmr_metadata = cmr, metadata
        try:
            P.podaac_cumulus(Client(w), w.base, PROC=proc, DREL=['RL06'], VERSION=['0', '3'], AOD1B=aod, ENDPOINT=endpoint, TIMEOUT=10, GZIP=zipped, CLOBBER=clobber, MODE=0o775)
        finally:
            u.cmr, u.cmr_metadata = old
        e = dict(junk)
        for n, f in expected.items():
            e[n], z, t = f()
            if e[n] != b'former':
                c.close(clock(w, w.base/n), t, 0, 'time of ' + n)
        for p in proc:
            e['geocenter/' + TN[0].format(p)] = b'remote ' + TN[0].format(p).encode()
        e[TN[1]] = b'remote ' + TN[1].encode()
        for n, x in idx.items():
            e[n] = ''.join(y + '\n' for y in x).encode()
        t = w.tree()
        c.same(sorted(t), sorted(e), 'files')
        for n, v in e.items():
            b = t[n]
            if b[:2] == b'\x1f\x8b':
                c.true(zipped and n.endswith('.gz'), 'compression of ' + n)
                b = gzip.decompress(b)
            else:
                c.true(not (zipped and n.endswith('.gz')) or v == b'former', 'compression of ' + n)
            c.same(b, v, 'content of ' + n)

GETTERS = dict(slr=(['http://download.csr.utexas.edu/pub/slr/degree_5/CSR_Monthly_5x5_Gravity_Harmonics.txt', 'http://download.csr.utexas.edu/pub/slr/degree_2/C20_RL06.txt', 'http://download.csr.utexas.edu/pub/slr/degree_2/C21_S21_RL06.txt', 'http://download.csr.utexas.edu/pub/slr/degree_2/C22_S22_RL06.txt', 'http://download.csr.utexas.edu/pub/slr/TN11E/TN11E.txt'], ''),
    geocenter=(['http://download.csr.utexas.edu/pub/slr/geocenter/GCN_L1_L2_30d_CF-CM.txt', 'http://download.csr.utexas.edu/outgoing/cheng/gct2est.220_5s'], 'geocenter/'),
    gfz=(['isdcftp.gfz-potsdam.de/grace/Level-2/GFZ/RL06_SLR_C20/GFZ_RL06_C20_SLR.dat', 'isdcftp.gfz-potsdam.de/grace/GravIS/GFZ/Level-2B/aux_data/GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat', 'isdcftp.gfz-potsdam.de/grace/GravIS/GFZ/Level-2B/aux_data/GRAVIS-2B_GFZOP_GEOCENTER_0003.dat'], None),
    figshare=(['https://ndownloader.figshare.com/files/1/CSR_RL06_TS_SLF_iter.txt', 'https://ndownloader.figshare.com/files/2/JPL_RL05_wSLR_SLF_iter.txt'], 'geocenter/'),
    gsfc=(['https://earth.gsfc.nasa.gov/sites/default/files/geo/slr-weekly/gsfc_slr_5x5c61s61.txt'], ''))

@harness('C45', configs=[dict(which=w, n=n) for w, n in (('slr', 3), ('geocenter', 2), ('gfz', 3), ('figshare', 2), ('gsfc', 1))])
def getters(c, which, n):
    """auxiliary files: content of the server whatever the local copy"""
    import hashlib
    u = c.gt.utilities
    with world(c, None, c.tmpdir()) as w:
        urls, sub = GETTERS[which]
        files, e = [], {}
        for k, x in enumerate(urls):
            data = f'remote {k}\nData span: 1 Oct 1992 to 15 Mar 2023\n'.encode() if which == 'gsfc' else f'remote {k}'.encode()
            w.remote[x] = (data, T0 + k)
            f = (sub if sub is not None else 'geocenter/' if 'GEOCENTER' in x else '') + x.split('/')[-1]
            e[f] = data
            files.append(dict(name=f.split('/')[-1], download_url=x, supplied_md5=hashlib.md5(data).hexdigest()))
            if k < n and c.pick(c.bool(f'has {k}')):
                w.local(f, data if c.pick(c.bool(f'equal {k}')) else b'local', c.real(f'time {k}', 0.0, 4e9))
        wrong = False
        if which == 'slr':
            u.from_csr(w.base, 'SLR')
        elif which == 'geocenter':
            u.from_csr(w.base, ['geocenter'])
        elif which == 'gfz':
            u.from_gfz(w.base)
            for k, x in enumerate(urls):
                f = str(w.base/list(e)[k])
                if f in w.mt and isinstance(w.mt[f], int):
                    c.same(w.mt[f], T0 + k, 'time')
        elif which == 'gsfc':
            copy = c.pick(c.bool('copy'))
            u.from_gsfc(w.base, copy=copy)
            if copy:
                e['GSFC_SLR_5x5c61s61_199210_202303.txt'] = list(e.values())[0]
        else:
            wrong = c.pick(c.bool('wrong'))
            files += [dict(name='readme.txt', download_url='https://x', supplied_md5='')]
            if wrong:
                files[1]['supplied_md5'] = '0'*32
            w.remote['https://api.figshare.com/v2/articles/7388540'] = json.dumps(dict(files=files)).encode()
            raised = False
            try:
                u.from_figshare(w.base)
            except Exception as x:
                if 'hecksum' not in str(x):
                    raise
                raised = True
            c.same(raised, wrong, 'checksum verified')
        t = w.tree()
        c.same(sorted(t), sorted(e), 'files')
        for f in e:
            c.same(t[f], e[f], 'content of ' + f)

@harness('C45', configs=[dict(endpoint=e, pages=p) for e, p in (('data', (3,)), ('s3', (2, 1)), ('data', ()))])
def queries(c, endpoint, pages):
    """granules of the repository of metadata: names, addresses and times correspond"""
    u, opened = c.gt.utilities, []
    rel = dict(data='http://esipfed.org/ns/fedsearch/1.1/data#', s3='http://esipfed.org/ns/fedsearch/1.1/s3#', doc='http://esipfed.org/ns/fedsearch/1.1/documentation#')
    replies, e, k = [], [[], [], []], 0
    for n in pages:
        entries = []
        for i in range(n):
            links = [dict(rel=rel['doc'], href=f'https://doc/{k}'), dict(rel=rel['s3' if endpoint == 'data' else 'data'], href=f'other/{k}')]
            if c.pick(c.bool(f'link {k}')) or i == n - 1:
                # first of the links
                links += [dict(rel=rel[endpoint], href=f'root/granule{k}'), dict(rel=rel[endpoint], href=f'root/granule{k}.md5')]
                for x, v in zip(e, (f'granule{k}', f'root/granule{k}', T0 + 1000000*k)):
                    x.append(v)
            entries.append(dict(title=f'granule{k}', updated=time.strftime('%Y-%m-%dT%H:%M:%S', time.gmtime(T0 + 1000000*k)) + '.123Z', links=links))
            k += 1
        replies.append((dict(feed=dict(entry=entries)), {'CMR-Search-After': f'["{k}"]'}))
    replies.append((dict(feed=dict(entry=[])) if pages else dict(errors=['none']), {}))
    class Reply(io.BytesIO):
        def info(self):
            return self.head
    class Request:
        def __init__(self, url):
            self.url, self.head = url, {}
        def add_header(self, k, v):
            self.head[k] = v
    class Opener:
        def open(self, r):
            opened.append((r.url, dict(r.head)))
            b, h = replies[len(opened)-1]
            x = Reply(json.dumps(b).encode())
            x.head = h
            return x
    old = u.urllib2
    u.urllib2 = Delegate(old, Request=Request, build_opener=lambda *a: Opener())
    try:
        r = u.cmr(mission='grace-fo', center='CSR', release='RL06', product='GSM', version='3', endpoint=endpoint, start_date='2019-01-01T00:00:00')
    finally:
        u.urllib2 = old
    c.same([list(x) for x in r], e, 'granules')
    c.same([x[1] for x in opened], [{}] + [{'CMR-Search-After': f'["{sum(pages[:i+1])}"]'} for i in range(len(pages))], 'pages')
    q = opened[0][0]
    c.true(all(x in q for x in ('short_name=GRACEFO_L2_CSR_MONTHLY_0063', 'GSM-2_???????-???????_????_?????_BA01_???3*', 'temporal=2019-01-01T00:00:00,', 'provider=POCLOUD')), 'query')

@harness('C45', configs=[dict(n=n) for n in (1, 3)])
def unique(c, n):
    """new files never replace others, and copies keep contents and times"""
    with world(c, None, c.tmpdir()) as w:
        names = ['log.txt'] + [f'log_{i}.txt' for i in range(1, n+2)]
        have = [f for f in names[:-1] if c.pick(c.bool('has ' + f))]
        for f in have:
            w.local(f, f.encode())
        fd = c.gt.utilities.create_unique_file(w.base/'log.txt')
        fd.write(b'new')
        fd.close()
        first = [f for f in names if f not in have][0]
        e = {f: f.encode() for f in have}
        e[first] = b'new'
        c.same(w.tree(), e, 'files')
        move = c.pick(c.bool('move'))
        g = w.base/first
        os.utime(g, (1000000000, 1234567890))
        g.chmod(0o640)
        c.gt.utilities.copy(g, w.base/'sub.txt', move=move)
        c.same((w.base/'sub.txt').read_bytes(), b'new', 'copy')
        c.same((int(os.stat(w.base/'sub.txt').st_mtime), os.stat(w.base/'sub.txt').st_mode & 0o777), (1234567890, 0o640), 'system information')
        c.same(g.exists(), not move, 'source')

@harness('C45', configs=[dict()])
def rounding(c):
    """even numbers below and whole numbers above"""
    x = c.real('x', -1e6, 1e6)
    e = c.gt.utilities.even(x)
    n = c.int('n', -600000, 600000)
    c.true((e <= x) & (x < e + 2), 'below')
    c.true((e != 2*n + 1), 'even')
    k = c.gt.utilities.ceil(x)
    c.true((k >= x) & (k - 1 < x), 'above')

doc('C45', 'any times of modification of local and remote files, presence and identity of local copies, options; archives of 2 to 40 listed files per server', ['servers are stand-ins holding listed files', 'times of local files are kept in a table in place of the file system'])
