"""Write known_findings.json: findings that are not repaired, and those that are"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIXED = {'d71ba3d': 'C02', '033eccd': 'C08', '95de889': 'C02', '9e8e393': 'C03', '49ae334': 'C03', '7feb605': 'C03', '6955780': 'C03', 'd494308': 'C04',
         '3cde884': 'C04', '0d56aa1': 'C04', '983da2b': 'C05', '56dee18': 'C04', '34d1189': 'C06', 'ccfb3ae': 'C06', '438acfb': 'C06', 'fb83dac': 'C06',
         '463d5cf': 'C06', 'a20994f': 'C06', 'eff735e': 'C06', 'a26893c': 'C07', '1c28261': 'C07', '7b17ac3': 'C07', '53c7200': 'C07', 'd808fca': 'C07',
         '6d91ce2': 'C07', 'e71f4ac': 'C07', 'd7ff6d3': 'C07', '1eb7d28': 'C08', 'ecfd215': 'C06', 'f9ed454': 'C09', '421ef21': 'C09', 'f80d3ff': 'C09',
         '80c1240': 'C09', '1aa5622': 'C09', '040f517': 'C09', 'c867d16': 'C11', 'a8b1f32': 'C12', '476ed76': 'C13', 'c92729b': 'C13', '105a2a8': 'C13',
         'cecac04': 'C13', '81cf21e': 'C13', '2d516fb': 'C13', '27e9c40': 'C13', 'ed8e954': 'C13', 'ab9d5d1': 'C18', '426bb42': 'C18', '201a589': 'C15',
         '0417cdf': 'C10', '11cb5d6': 'C18',
         '8e06f65': 'C06', '4cff9fe': 'C02', 'a84d8d3': 'C08', '0d08989': 'C05', 'c2a2019': 'C05', '2bc32c9': 'C03', 'c227972': 'C02', 'c8ee57b': 'C08', 'f46fe01': 'C08', '74680e5': 'C03', '7030c30': 'C03', 'aa1f9ba': 'C08', '1cf69e4': 'C08',
         'fae3d77': 'C07', '57ca599': 'C07', '6447027': 'C07', 'dc34030': 'C07', '6c51a92': 'C07', 'e05c9e3': 'C07', '2cf25bc': 'C04', '50c51bf': 'C09'}

KNOWN = [
    dict(property='C17', id='shenfunfile-world', status='known',
         what='ShenfunFile/HDF5File of a space on part of the processes: the file is opened on MPI.COMM_WORLD (mpi4py_fft/io/h5py_file.py, outside this repository), '
              'so the processes outside the group are waited for. History: 2 processes, group [0], write one function to a file',
         match=dict(kind='cross-group', message=r'^mpi4py_fft/io/h5py_file\.py')),
    dict(property='C17', id='checkpoint-world', status='known',
         what='Checkpoint of data on part of the processes: the kill file is looked for, and the file opened, on MPI.COMM_WORLD (shenfun/io/__init__.py: Checkpoint), '
              'so the processes outside the group are waited for. History: 2 processes, group [0], Checkpoint.update',
         match=dict(kind='cross-group', message=r'^shenfun/io/__init__\.py')),
]


def main():
    log = subprocess.run(['git', '-C', os.environ.get('DST_REPO', '/repo'), 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
    out = list(KNOWN)
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if s.startswith('fix: '):
            what = s[5:]
            p = FIXED[h[:7]]
            out.append(dict(property=p, id=h[:7], status='fixed', commit=h[:7], what=what, line=f'fixed: property={p} {h[:7]} {what}'))
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
        json.dump({'findings': out}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
