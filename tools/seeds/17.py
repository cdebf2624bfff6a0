ID="feature-best-score"; PROP="C17"
NEEDS="a feature matched at two tiles, with other features' entries in between, the later one with more weight given to distance"
BREAKS="a feature seen again replaces its earlier entry also when its score is not higher"
EDITS=[("coalesce.rs","""                if current_scoredist > already_coalesced.get().scoredist
                    && current_relev >= already_coalesced.get().grid_entry.relev
                {
                    already_coalesced.insert(coalesce_entry);
                }
            }
            Entry::Vacant(entry) => {
                entry.insert(coalesce_entry);
            }
        }

        if previous_id != Some(current_id) {
            feature_count += 1;
        }
        if match_opts.proximity.is_none() && feature_count > bigger_max {
            break;
        }
        if current_scoredist < min_scoredist {
            min_scoredist = current_scoredist;
        }
        previous_id = Some(current_id);
        previous_relevance = current_relev;
        previous_scoredist = current_scoredist;
    }

    let mut contexts""","""                if current_scoredist > already_coalesced.get().scoredist
                    || current_relev <= already_coalesced.get().grid_entry.relev
                {
                    already_coalesced.insert(coalesce_entry);
                }
            }
            Entry::Vacant(entry) => {
                entry.insert(coalesce_entry);
            }
        }

        if previous_id != Some(current_id) {
            feature_count += 1;
        }
        if match_opts.proximity.is_none() && feature_count > bigger_max {
            break;
        }
        if current_scoredist < min_scoredist {
            min_scoredist = current_scoredist;
        }
        previous_id = Some(current_id);
        previous_relevance = current_relev;
        previous_scoredist = current_scoredist;
    }

    let mut contexts""")]
DEMO='''
pub fn demo() {
    let s = store("s", 6, 0, vec![], vec![(key(1, 1), vec![e(1., 5, 1, 1, 1, 0), e(1., 4, 3, 3, 2, 0), e(1., 3, 2, 2, 1, 0)])]);
    let r = coalesce(vec![sub(&s, 0, 1, 1., vec![(exact(1, 1), 0)])], &opts(6)).unwrap();
    let got: Vec<_> = r.iter().map(|c| (c.entries[0].grid_entry.id, c.entries[0].grid_entry.score)).collect();
    assert_eq!(got, vec![(1, 5), (2, 4)]);
}
'''
