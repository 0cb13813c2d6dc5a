cd /tmp/w
L="$*"
[ -z "$L" ] && L="unit:Ext4::read_from_block unit:inode::Inode::read unit:journal::Journal::load class:Extents class:ExtentsBlocks class:BlockMap class:FileBlocks class:ReadDir unit:DirEntry::from_bytes unit:get_dir_entry_via_htree unit:get_dir_entry_inode_by_name unit:Inode::symlink_target unit:Ext4::read_inode_file unit:resolve::resolve_path unit:File::open_inode unit:File::read_bytes"
for r in $L; do echo "$r"; done | tr '\n' '\0' | xargs -0 -P6 -I{} bash -c 'n=$(echo "{}" | tr -c "a-zA-Z0-9_\n" _); VF_UNK=1 timeout 120 ./an mir.json "{}" > out.$n 2>&1; echo "$? {}: $(grep -c violated out.$n) lines; $(grep -aE "^(unit:|class:|api_|op_|alt_|val_|err_|rd_|fmt_|mgc_|doc_).*exits|starts" out.$n | tail -1 | cut -c1-100) unmod $(grep -c ^unmodelled out.$n) IMP $(grep -c "exit IMP" out.$n)"'
