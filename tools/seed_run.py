#!/usr/bin/env python3
"""Build demo.rs (beside this file) against the crate in the current directory and run it."""
import os, shutil, subprocess, sys, tempfile

here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, "src"))
    shutil.copy(os.path.join(here, "demo.rs"), os.path.join(d, "src", "main.rs"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(f'''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
cam-geom = {{ path = "{repo}", features = ["serde-serialize"] }}
nalgebra = {{ version = "0.33", default-features = false, features = ["std", "serde-serialize"] }}
serde = "1"
serde_json = "1"

[profile.dev]
debug = 0

[workspace]
''')
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "run", "--offline", "-q"], cwd=d, env=env)
    sys.exit(0 if r.returncode == 0 else 1)
