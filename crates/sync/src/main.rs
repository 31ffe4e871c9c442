//! A registry may be owned by any thread and read by several: this compiles, or it may not.
use shard_ecs::Registry;

fn movable_and_shareable<T: Send + Sync>() {}

fn main() {
    movable_and_shareable::<Registry>();
}
