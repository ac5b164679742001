# build.sh NAME BUILD REPO RUSTC...: copies the tree's sources, sends their threads and locks to the simulator, compiles the root NAME
set -e
D=$2/rs_$1; mkdir -p $D; find $D -mindepth 1 -delete; cp -r $3/Splinter/src $D/src
find $D/src -type f -name '*.rs' | xargs perl -pi -e 's/(?<![\w:])(::)?std::/($1||"")."vstd::simstd::"/ge'
case $1 in bank) cp rust/sim_bank.rs $D/src/example/; root=$D/src/example/sim_bank.rs ;; *) sed 's/_p: arbitrary()/_p: std::marker::PhantomData/' $D/src/trusted/ClientAPI_t.rs > $D/src/trusted/TreeAPI_t.rs; cp -r rust/$1/. $D/src/; root=$D/src/sim_$1.rs ;; esac
[ $1 != store ] || python3 rust/codec.py $D/src/implementation/DiskLayout_v.rs
eval "$4 --crate-type cdylib --crate-name rs_$1 -Zcrate-attr='feature(register_tool)' -Zcrate-attr='register_tool(verifier)' -Zcrate-attr='feature(stmt_expr_attributes)' -Zcrate-attr='feature(proc_macro_hygiene)' $root -o $2/librs_$1.so"
