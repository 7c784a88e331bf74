F = 'weatherbenchX/beam_utils.py'
BODY = '''  try:
    with filesystem.open(tmp_file_path, mode='wb') as f:
      f.write(data)
  except BaseException:
    with contextlib.suppress(FileNotFoundError):
      filesystem.rm(tmp_file_path)
    raise
  else:
    filesystem.mv(tmp_file_path, file_path, overwrite=True)
'''


def body(new, want, name):
  return (name, 'C09', F, BODY, new, want)


CASES = [
    ('except_exception', 'C09', F, 'except BaseException', 'except Exception', 1),
    ('no_raise', 'C09', F, '    raise\n  else:', '  else:', 1),
    ('pid', 'C09', F, "{uuid.uuid1()}", "{os.getpid()}", 1),
    ('uuid4', 'C09', F, "uuid.uuid1()", "uuid.uuid4().hex", 0),
    ('tmpdir', 'C09', F, "os.path.join(dir_path, tmp_name)", "os.path.join('/tmp', tmp_name)", 1),
    ('copy', 'C09', F, "filesystem.mv(tmp_file_path, file_path, overwrite=True)", "filesystem.copy(tmp_file_path, file_path)\n    filesystem.rm(tmp_file_path)", 1),
    ('rm_first', 'C09', F, "    filesystem.mv(", "    if filesystem.exists(file_path):\n      filesystem.rm(file_path)\n    filesystem.mv(", 1),
    ('rm_src', 'C09', F, "filesystem.rm(tmp_file_path)", "filesystem.rm(file_path)", 1),
    ('direct', 'C09', 'weatherbenchX/beam_pipeline.py', ['''    beam_utils.atomic_write(
        self.out_path,
        metrics.to_netcdf(),
    )'''], ["    metrics.to_netcdf(self.out_path)"], 1),
    body('''  try:
    with filesystem.open(tmp_file_path, mode='wb') as f:
      f.write(data)
  except BaseException:
    with contextlib.suppress(FileNotFoundError):
      filesystem.rm(tmp_file_path)
    raise
  finally:
    filesystem.mv(tmp_file_path, file_path, overwrite=True)
''', 1, 'finally'),
    body('''  try:
    with filesystem.open(tmp_file_path, mode='wb') as f:
      f.write(data)
      filesystem.mv(tmp_file_path, file_path, overwrite=True)
  except BaseException:
    with contextlib.suppress(FileNotFoundError):
      filesystem.rm(tmp_file_path)
    raise
''', 1, 'inside_with'),
    body('''  try:
    with filesystem.open(tmp_file_path, mode='wb') as f:
      f.write(data)
    filesystem.mv(tmp_file_path, file_path, overwrite=True)
  except BaseException:
    with contextlib.suppress(FileNotFoundError):
      filesystem.rm(tmp_file_path)
    raise
''', 0, 'mv_in_try'),
    body('''  try:
    out = filesystem.open(tmp_file_path, mode='wb')
    with out as f:
      f.write(data)
  except BaseException as e:
    try:
      filesystem.rm(tmp_file_path)
    except FileNotFoundError:
      pass
    raise e
  filesystem.mv(tmp_file_path, file_path, overwrite=True)
''', 0, 'no_else'),
    body('''  try:
    with filesystem.open(tmp_file_path, mode='wb') as f:
      f.write(data)
    filesystem.mv(tmp_file_path, file_path, overwrite=True)
  finally:
    if filesystem.exists(tmp_file_path):
      filesystem.rm(tmp_file_path)
''', 0, 'finally_cleanup'),
    body('''  if filesystem.exists(file_path):
    return
  try:
    with filesystem.open(tmp_file_path, mode='wb') as f:
      f.write(data)
  except BaseException:
    with contextlib.suppress(FileNotFoundError):
      filesystem.rm(tmp_file_path)
    raise
  else:
    filesystem.mv(tmp_file_path, file_path, overwrite=True)
''', 1, 'first_wins'),
    body('''  _fill(filesystem, tmp_file_path, data)
  filesystem.mv(tmp_file_path, file_path, overwrite=True)


def _fill(fs, where, contents):
  try:
    with fs.open(where, mode='wb') as f:
      f.write(contents)
  except BaseException:
    with contextlib.suppress(FileNotFoundError):
      fs.rm(where)
    raise
''', 0, 'helper'),
    ('dirname', 'C09', F, "dir_path, name = os.path.split(file_path)", "dir_path = os.path.dirname(file_path)\n  name = os.path.basename(file_path)", 0),
    ('suffix', 'C09', F, ["tmp_name = f'tmp.{uuid.uuid1()}.{name}'\n", "tmp_file_path = os.path.join(dir_path, tmp_name)"], ["", "tmp_file_path = f'{file_path}.{uuid.uuid1()}.tmp'"], 0),
    ('truncated', 'C09', F, "f.write(data)", "f.write(data[:65536])", 1),
    ('chunked', 'C09', F, "f.write(data)", "for i in range(0, len(data), 4096):\n        f.write(data[i:i + 4096])", 0),
]
