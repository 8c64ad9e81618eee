seed("C09-temp-file","two graphs, one of which is written to a file whose name is that of the other one with a suffix .tmp",
 "the graph is written to a temporary file with a guessable name first, which destroys another graph's file",
 '''
fn main() {
    let d = std::env::temp_dir().join(format!("fpd{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let ok = catch_unwind(AssertUnwindSafe(|| {
        let f = |n: &str| d.join(n).to_str().unwrap().to_string();
        let (a, b) = (graph(&[(0, 1, 3), (1, 2, 4)]), graph(&[(0, 1, 8), (2, 0, 9)]));
        for dimacs in [false, true] {
            let w = |g: &InputGraph, n: &str| if dimacs { g.to_dimacs_file(&f(n)) } else { g.to_file(&f(n)) };
            let r = |n: &str| if dimacs { InputGraph::from_dimacs_file(&f(n)) } else { InputGraph::from_file(&f(n)) };
            for k in ["g.tmp", "g"] {
                w(if k == "g" { &a } else { &b }, k).unwrap();
            }
            assert!(r("g").unit_test_output_string() == a.unit_test_output_string());
            assert!(r("g.tmp").unit_test_output_string() == b.unit_test_output_string());
        }
    })).is_ok();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(ok);
}
''', [("input_graph.rs",'''        let mut f = BufWriter::new(File::create(filename)?);
        for edge''','''        let temp = format!("{}.tmp", filename);
        let mut f = BufWriter::new(File::create(&temp)?);
        for edge'''),("input_graph.rs",'''edge.weight)?;
        }
        f.flush()
    }

    /// Reads an input graph from a text file, using the DIMACS format:''','''edge.weight)?;
        }
        f.flush()?;
        // a reader sees the old or the new file, but never a part of it
        std::fs::rename(&temp, filename)
    }

    /// Reads an input graph from a text file, using the DIMACS format:''')])
