# /tmp/vpw/setup.sh: fresh scratch copy of /repo at /tmp/w
rm -rf /tmp/w; cp -a /repo /tmp/w; cd /tmp/w; git checkout -q -- .
for f in build.sh test.sh; do sed -e 's#/repo#/tmp/w#g; s#/opt/vp/build.sh#/tmp/vpw/build.sh#g' /opt/vp/$f > /tmp/vpw/$f; done
grep -rl '/repo' --include=Makefile --include=config.status --include=libtool --include='*.la' . | xargs -r sed -i 's#/repo#/tmp/w#g'
bash /tmp/vpw/build.sh > /tmp/vpw/b.log 2>&1; echo built $?
