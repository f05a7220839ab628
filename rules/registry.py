CHECKS = {
 'C01': ('other', ['locks']),
 'C02': ('other', ['locks:run_guard']),
 'C03': ('other', ['locks:run_order']),
 'C04': ('other', ['locks:run_static']),
 'S01': ('other', ['gates:run_export']),
 'S02': ('other', ['gates:run_webdav']),
 'S03': ('other', ['gates:run_pam']),
 'S04': ('other', ['sessions']),
 'S05': ('other', ['sessions:run_store']),
 'S06': ('other', ['sessions:run_gen']),
 'H09': ('other', ['nulls']),
 'H04': ('other', ['routing']),
 'H05': ('other', ['websocket:run_shake']),
 'H06': ('other', ['websocket:run_frames']),
 'H01': ('other', ['http:run_frame']),
 'H02': ('other', ['http:run_outcome']),
 'H03': ('other', ['http:run_keepalive']),
 'R04': ('other', ['lifecycle']),
 'B01': ('other', ['parser:run_bounds']),
 'S08': ('other', ['parser:run_limits']),
 'H08': ('other', ['parser:run_complete']),
 'P02': ('other', ['parser:run_progress']),
 'R01': ('other', ['resources:run_handles']),
 'R02': ('other', ['resources:run_leaks']),
 'R03': ('other', ['resources:run_uaf']),
 'B02': ('other', ['buffers']),
 'S09': ('other', ['quoting']),
 'P03': ('other', ['dicts']),
 'P05': ('other', ['parts']),
 'R05': ('other', ['fdexec']),
 'R06': ('other', ['allocators']),
 'C05': ('other', ['polling']),
 'H10': ('other', ['files:run_files']),
}
