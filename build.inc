# Sourced by the scripts: builds the simulators the property in $1 needs (all
# of them without one) and sets BINS, COLASIM_MIRI and COLASIM_ELSEWHERE.
export CARGO_TARGET_DIR="$PWD/sim/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUST_BACKTRACE RUSTFLAGS MIRIFLAGS
export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:allocator_may_return_null=1
profiles="checked release plain"
unsafety= counted= elsewhere=
case "$1" in
    C19) profiles=checked unsafety=1 ;;
    C20 | C21) profiles=checked counted=1 ;;
    C22) profiles=checked elsewhere=1 ;;
    "") unsafety=1 counted=1 elsewhere=1 ;;
esac
BINS=
interpreters=()
mkdir -p "$CARGO_TARGET_DIR"
pids=
for profile in $profiles; do
    ( cd sim && exec cargo build --offline --quiet --profile $profile ) >"$CARGO_TARGET_DIR/build-$profile.log" 2>&1 &
    pids="$pids $!"
    BINS="$BINS${BINS:+,}$CARGO_TARGET_DIR/$profile/colasim"
done
if [ $unsafety ]; then
    # AddressSanitizer, on top of assertions and the standard library's checks
    # of unsafe preconditions.
    ( cd sim && RUSTFLAGS="-Zsanitizer=address --cfg colasim_asan" exec cargo +nightly build --offline --quiet \
        --profile asan --target x86_64-unknown-linux-gnu ) >"$CARGO_TARGET_DIR/build-asan.log" 2>&1 &
    pids="$pids $!"
    BINS="$BINS,$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/asan/colasim"
    # Miri. The first run builds.
    export COLASIM_MIRI="cd '$PWD/sim' && CARGO_TARGET_DIR='$CARGO_TARGET_DIR/miri' \
MIRIFLAGS='-Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-disable-data-race-detector' exec cargo +nightly miri run --offline --quiet --profile miri -- lite"
    interpreters+=("$COLASIM_MIRI")
fi
if [ $counted ]; then
    # Counts basic blocks.
    ( cd sim && RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
-Cllvm-args=-sanitizer-coverage-trace-pc-guard --cfg colasim_counted" exec cargo build --offline --quiet \
        --profile counted --target x86_64-unknown-linux-gnu ) >"$CARGO_TARGET_DIR/build-counted.log" 2>&1 &
    pids="$pids $!"
    BINS="$BINS,$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/counted/colasim"
fi
if [ $elsewhere ]; then
    # Miri as another kind of machine, which @MACHINE@ stands for. This is not
    # about undefined behaviour. The first run builds.
    export COLASIM_ELSEWHERE="cd '$PWD/sim' && CARGO_TARGET_DIR='$CARGO_TARGET_DIR/elsewhere' \
MIRIFLAGS='-Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-disable-data-race-detector -Zmiri-disable-validation \
-Zmiri-disable-stacked-borrows' exec cargo +nightly miri run --offline --quiet --profile elsewhere --target @MACHINE@ -- elsewhere"
    for machine in armv7-unknown-linux-gnueabihf s390x-unknown-linux-gnu; do
        interpreters+=("${COLASIM_ELSEWHERE//@MACHINE@/$machine}")
    done
fi
if [ ${#interpreters[@]} != 0 ]; then
    # One after the other: each may have to build Miri's standard library.
    ( for command in "${interpreters[@]}"; do ( eval "$command" </dev/null ) || exit 1; done ) >"$CARGO_TARGET_DIR/build-miri.log" 2>&1 &
    pids="$pids $!"
fi
built=0
for pid in $pids; do wait $pid || built=1; done
if [ $built != 0 ]; then
    tail -n 40 "$CARGO_TARGET_DIR"/build-*.log >&2
    echo "the simulator does not build" >&2
    false
fi
