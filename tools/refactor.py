#!/usr/bin/env python3
"""refactor.py [NAME...]: rewrites of the source that keep the properties (other queue orders, other
tie orders, other algorithms for the same result). Each is applied to a copy of /repo below $W
(default /tmp/sd/rf/a) and the checks of the module have to stay quiet. Some of the existing tests
pin tie orders and fail on some rewrites; that is printed but does not matter here."""
import os, subprocess, sys
def sub(repo, f, pairs):
    p=f"{repo}/{f}"; s=open(p).read()
    for a,b in pairs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b,1)
    open(p,'w').write(s)
D='src/math/clustering/dbscan/algorithm.rs'; K='src/math/neighbors/kdtree/mod.rs'; L='src/math/neighbors/linear.rs'
KM='src/math/clustering/kmeans/algorithm.rs'; KC='src/math/clustering/kmeans/cluster.rs'; KI='src/math/clustering/kmeans/init.rs'
H='src/math/clustering/hierarchical/algorithm.rs'; UF='src/math/clustering/hierarchical/union_find.rs'
S='src/math/graph/spanning_tree.rs'; I='src/image.rs'; LAB='src/color/lab.rs'; X='src/color/xyz.rs'; R='src/color/rgba.rs'; M='src/math/distance/metric.rs'
CD='src/math/clustering/hdbscan/core_distance.rs'; P='src/math/point.rs'
REFS={}
def ref(f): REFS[f.__name__]=f; return f
@ref
def dbscan_stack(r):
    sub(r,D,[("queue.pop_front()","queue.pop_back()"),
    ("labels[neighbor.index] = Label::Marked;","if labels[neighbor.index].is_undefined() { labels[neighbor.index] = Label::Marked; }"),
    ])
@ref
def dbscan_vec(r):
    sub(r,D,[("""        let mut queue = VecDeque::new();
        queue.extend(neighbors.iter().map(|n| n.index));
        while let Some(current_index) = queue.pop_front() {""","""        let mut pending: Vec<usize> = neighbors.iter().map(|n| n.index).rev().collect();
        while let Some(current_index) = pending.pop() {"""),
    ("queue.push_back(secondary_index);","pending.push(secondary_index);"),("queue.push_back(secondary_index);","pending.push(secondary_index);"),
    ("use std::collections::{HashMap, VecDeque};","use std::collections::HashMap;")])
@ref
def dbscan_first(r):
    # start the groups from all core points computed first
    sub(r,D,[("""        for (index, point) in dataset.iter().enumerate() {
            if !labels[index].is_undefined() {
                continue;
            }

            let neighbors""","""        for (index, point) in dataset.iter().enumerate().rev() {
            if !labels[index].is_undefined() {
                continue;
            }

            let neighbors""")])
@ref
def dbscan_plainsum(r):
    sub(r,D,[("""                    let addend = dataset[index] - *compensation;
                    let total = *centroid + addend;
                    *compensation = (total - *centroid) - addend;
                    *centroid = total;""","""                    let point = dataset[index];
                    let corrected = point - *compensation;
                    let sum = corrected + *centroid;
                    *compensation = (sum - *centroid) - corrected;
                    *centroid = sum;""")])
@ref
def kd_near_first(r):
    sub(r,K,[("""            self.search_recursively(node.left(), query, k, heap, nearest);
            self.search_recursively(node.right(), query, k, heap, nearest);
        } else if""","""            let (near, far) = if delta < F::zero() { (node.left(), node.right()) } else { (node.right(), node.left()) };
            self.search_recursively(near, query, k, heap, nearest);
            self.search_recursively(far, query, k, heap, nearest);
        } else if"""),("""            self.search_radius_recursively(node.left(), query, radius, results);
            self.search_radius_recursively(node.right(), query, radius, results);
        } else if""","""            self.search_radius_recursively(node.right(), query, radius, results);
            self.search_radius_recursively(node.left(), query, radius, results);
        } else if""")])
@ref
def kd_best_first(r):
    sub(r,K,[("""        // The distance to the k-th nearest of the visited points.
        let distance = nearest
            .peek()
            .map(|Reverse(e)| e.distance())
            .unwrap_or(F::min_value());
        if nearest.len() < k || self.axis_distance(delta) <= distance {
            self.search_recursively(node.left(), query, k, heap, nearest);
            self.search_recursively(node.right(), query, k, heap, nearest);
        } else if delta < F::zero() {
            self.search_recursively(node.left(), query, k, heap, nearest);
        } else {
            self.search_recursively(node.right(), query, k, heap, nearest);
        }""","""        let (near, far) = if delta < F::zero() { (node.left(), node.right()) } else { (node.right(), node.left()) };
        self.search_recursively(near, query, k, heap, nearest);
        let bound = match nearest.peek() {
            Some(Reverse(e)) if nearest.len() >= k => e.distance(),
            _ => F::max_value(),
        };
        if self.axis_distance(delta) < bound || nearest.len() < k {
            self.search_recursively(far, query, k, heap, nearest);
        }"""),
    ("let median = indices.len().div(2);","let median = (indices.len() - 1).div(2);")])
@ref
def kd_select(r):
    sub(r,K,[("""        indices.sort_unstable_by(|index1, index2| {""","""        let middle = indices.len() / 2;
        indices.select_nth_unstable_by(middle, |index1, index2| {"""),
    ("let median = indices.len().div(2);","let median = middle.div(1);")])
@ref
def kd_widest(r):
    # split by the axis of the widest extent
    sub(r,K,[("let axis = depth % dataset[0].dim();","""let mut axis = depth % dataset[0].dim();
        let mut widest = F::zero();
        for d in 0..dataset[0].dim() {
            let mut low = F::max_value();
            let mut high = F::min_value();
            for i in indices.iter() {
                low = low.min(dataset[*i][d]);
                high = high.max(dataset[*i][d]);
            }
            if high - low > widest { widest = high - low; axis = d; }
        }""")])
@ref
def kd_sorted_vec(r):
    s=open(f"{r}/{K}").read()
    sub(r,K,[("""        let mut neighbors = Vec::with_capacity(results.len());
        while let Some(element) = results.pop() {
            neighbors.push(Neighbor::new(element.index(), element.distance()));
        }
        neighbors""","""        let mut neighbors: Vec<Neighbor<F>> = results
            .into_iter()
            .map(|element| Neighbor::new(element.index(), element.distance()))
            .collect();
        neighbors.sort_by(|a, b| a.distance.partial_cmp(&b.distance).unwrap_or(Greater));
        neighbors"""),("""        let mut neighbors = Vec::with_capacity(k.min(heap.len()));
        while let Some(element) = heap.pop() {
            neighbors.push(Neighbor::new(element.index(), element.distance()));
            if neighbors.len() == k {
                break;
            }
        }
        neighbors""","""        let mut neighbors: Vec<Neighbor<F>> = nearest
            .into_iter()
            .map(|Reverse(element)| Neighbor::new(element.index(), element.distance()))
            .collect();
        neighbors.sort_by(|a, b| a.distance.partial_cmp(&b.distance).unwrap_or(Greater));
        neighbors""")])
@ref
def kd_iterative(r):
    sub(r,K,[("""        let mut results: BinaryHeap<Element<F>> = BinaryHeap::new();
        self.search_radius_recursively(self.root.as_ref(), query, radius, &mut results);
""","""        let mut results: BinaryHeap<Element<F>> = BinaryHeap::new();
        let mut stack: Vec<&Box<Node>> = self.root.iter().collect();
        while let Some(node) = stack.pop() {
            let point = &self.dataset[node.index()];
            let distance = self.metric.measure(query, point);
            if distance <= radius {
                results.push(Element::new(node.index(), distance));
            }
            let delta = query[node.axis()] - point[node.axis()];
            let near = self.axis_distance(delta) <= radius;
            if near || delta < F::zero() {
                stack.extend(node.left());
            }
            if near || delta >= F::zero() {
                stack.extend(node.right());
            }
        }
"""),("    fn search_radius_recursively(","    #[allow(unused)]\n    fn search_radius_recursively(")])
@ref
def linear_select(r):
    sub(r,L,[("""        neighbors.sort_unstable_by(|neighbor1, neighbor2| -> Ordering {
            neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()
        });
""","""        neighbors.sort_by(|neighbor1: &Neighbor<F>, neighbor2: &Neighbor<F>| -> Ordering {
            neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap().then(neighbor2.index.cmp(&neighbor1.index))
        });
"""),("""        self.search(query, 1).pop()""","""        let mut best: Option<Neighbor<F>> = None;
        for (index, point) in self.dataset.iter().enumerate() {
            let distance = self.metric.measure(query, point);
            if best.as_ref().map_or(true, |b| distance <= b.distance) {
                best = Some(Neighbor::new(index, distance));
            }
        }
        best"""),("""        let mut neighbors = Vec::new();
        for (index, point) in self.dataset.iter().enumerate() {
            let distance = self.metric.measure(point, query);
            if distance <= radius {
                neighbors.push(Neighbor::new(index, distance));
            }
        }
        neighbors""","""        self.dataset
            .iter()
            .map(|point| self.metric.measure(point, query))
            .enumerate()
            .rev()
            .filter(|(_, distance)| *distance <= radius)
            .map(|(index, distance)| Neighbor::new(index, distance))
            .collect()""")])
@ref
def kmeans_linear(r):
    sub(r,KM,[("let nns = KDTree::new(&centroids, metric);","let nns = crate::math::neighbors::linear::LinearSearch::new(&centroids, *metric);"),
     ("use crate::math::neighbors::kdtree::KDTree;\n","")])
@ref
def kmeans_two_pass(r):
    sub(r,KM,[("""        dataset.iter().enumerate().for_each(|(index, data)| {
            let result = nns.search_nearest(data);
            if let Some(nearest) = result {
                let cluster = clusters
                    .get_mut(nearest.index)
                    .expect("No cluster is found");
                cluster.insert(index, data);
            }
        });""","""        let assignment: Vec<Option<usize>> = dataset
            .iter()
            .map(|data| nns.search_nearest(data).map(|nearest| nearest.index))
            .collect();
        for (id, cluster) in clusters.iter_mut().enumerate() {
            for (index, data) in dataset.iter().enumerate().rev() {
                if assignment[index] == Some(id) {
                    cluster.insert(index, data);
                }
            }
        }"""),
     ("if difference >= tolerance {\n                    converged = false;\n                }","converged &= difference < tolerance;")])
@ref
def kmeans_cluster_vec(r):
    sub(r,KC,[("use std::collections::HashSet;","use std::collections::BTreeSet;"),("children: HashSet<usize>","children: BTreeSet<usize>"),("HashSet::new()","BTreeSet::new()")])
@ref
def kmeanspp_incremental(r):
    sub(r,KI,[("""        while centroids.len() < k {
            let furthest = dataset""","""        let mut nearest: Vec<F> = dataset
            .iter()
            .map(|point| metric.measure(point, &centroids[0]))
            .collect();
        while centroids.len() < k {
            let last: P = centroids[centroids.len() - 1];
            for (point, near) in dataset.iter().zip(nearest.iter_mut()) {
                *near = near.min(metric.measure(point, &last));
            }
            let furthest = dataset"""),
    ("""                .map(|(index, point)| -> (usize, F) {
                    let min_distance = centroids
                        .iter()
                        .map(|centroid| metric.measure(point, centroid))
                        .min_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Greater));
                    if let Some(min) = min_distance {
                        (index, min)
                    } else {
                        (index, F::zero())
                    }
                })
                .max_by(""","""                .map(|(index, _)| -> (usize, F) { (index, nearest[index]) })
                .rev()
                .max_by(""")])
@ref
def random_floyd(r):
    sub(r,KI,[("""        while centroids.len() < k {
            let index = rng.gen_range(0..dataset.len());
            if selected[index] {
                continue;
            }

            let point = dataset.get(index);
            if let Some(centroid) = point {
                selected[index] = true;
                centroids.push(*centroid);
            }
        }""","""        let mut remaining: Vec<usize> = (0..dataset.len()).collect();
        while centroids.len() < k {
            let position = rng.gen_range(0..remaining.len());
            let index = remaining.swap_remove(position);
            selected[index] = true;
            centroids.push(dataset[index]);
        }""")])
@ref
def hier_dfs(r):
    sub(r,H,[("queue.pop_front()","queue.pop_back()"),("""            let left_id = node.left;
            if left_id >= n_data {
                queue.push_back(&self.hierarchy[left_id - n_data]);
            } else {
                labels[left_id] = cluster_id;
            }

            let right_id = node.right;
            if right_id >= n_data {
                queue.push_back(&self.hierarchy[right_id - n_data]);
            } else {
                labels[right_id] = cluster_id;
            }""","""            for id in [node.left, node.right] {
                if id < n_data {
                    labels[id] = cluster_id;
                } else {
                    queue.push_back(&self.hierarchy[id - n_data]);
                }
            }"""),("""                    left: root_u,
                    right: root_v,""","""                    left: root_v,
                    right: root_u,"""),("sort_unstable_by","sort_by")])
@ref
def hier_cut(r):
    sub(r,H,[("""        let mut cluster_id = 0;
        while let Some(node_id) = node_ids.pop() {
            if node_id >= n_data {
                self.bfs(node_id, cluster_id, &mut labels);
            } else {
                labels[node_id] = cluster_id;
            }
            cluster_id += 1;
        }""","""        for (cluster_id, node_id) in node_ids.into_sorted_vec().into_iter().enumerate() {
            if node_id < n_data {
                labels[node_id] = cluster_id;
            } else {
                self.bfs(node_id, cluster_id, &mut labels);
            }
        }""")])
@ref
def uf_halving(r):
    sub(r,UF,[("""        let mut root = x;
        let mut parenet = x;
        // Find the root node of the given index.
        while self.parent[root] != root {
            root = self.parent[root];
        }

        while self.parent[parenet] != root {
            parenet = self.parent[parenet];
            self.parent[parenet] = root;
        }
        root""","""        let mut node = x;
        while self.parent[node] != node {
            self.parent[node] = self.parent[self.parent[node]];
            node = self.parent[node];
        }
        node""")])
@ref
def prim_array(r):
    s=open(f"{r}/{S}").read()
    a=s.index("        let n_vertices = vertices.len();"); b=s.index("        Self {\n            edges,")
    s=s[:a]+"""        let n_vertices = vertices.len();
        let mut edges = Vec::with_capacity(n_vertices - 1);
        let mut total_weight = F::zero();
        let mut attached = vec![false; n_vertices];
        let mut best: Vec<Option<(usize, F)>> = vec![None; n_vertices];
        let mut current_index = 0;
        attached[0] = true;
        for _ in 1..n_vertices {
            for index in 0..n_vertices {
                if attached[index] {
                    continue;
                }
                let weight = weight_fn(current_index, index);
                match best[index] {
                    Some((_, w)) if w <= weight => {}
                    _ => best[index] = Some((current_index, weight)),
                }
            }
            let mut next: Option<usize> = None;
            for index in 0..n_vertices {
                if attached[index] {
                    continue;
                }
                let better = match next {
                    None => true,
                    Some(n) => best[index].unwrap().1 < best[n].unwrap().1,
                };
                if better {
                    next = Some(index);
                }
            }
            let next = next.unwrap();
            let (from, weight) = best[next].unwrap();
            edges.push(WeightedEdge::new(from, next, weight));
            total_weight += weight;
            attached[next] = true;
            current_index = next;
        }
"""+s[b:]
    s=s.replace("use std::collections::{BinaryHeap, HashSet};\n","").replace("use crate::math::graph::edge::{Edge, WeightedEdge};","#[allow(unused)]\nuse crate::math::graph::edge::{Edge, WeightedEdge};")
    open(f"{r}/{S}","w").write(s)
@ref
def kruskal(r):
    s=open(f"{r}/{S}").read()
    a=s.index("        let n_vertices = vertices.len();"); b=s.index("        Self {\n            edges,")
    s=s[:a]+"""        let n_vertices = vertices.len();
        let mut all = Vec::new();
        for u in 0..n_vertices {
            for v in u + 1..n_vertices {
                all.push(WeightedEdge::new(v, u, weight_fn(v, u)));
            }
        }
        all.sort_by(|a, b| b.cmp(a));
        let mut group: Vec<usize> = (0..n_vertices).collect();
        let mut edges: Vec<WeightedEdge<F>> = Vec::new();
        let mut total_weight = F::zero();
        for edge in all {
            let (p, q) = (group[edge.u()], group[edge.v()]);
            if p == q {
                continue;
            }
            for g in group.iter_mut() {
                if *g == p {
                    *g = q;
                }
            }
            total_weight += edge.weight();
            edges.push(edge);
        }
"""+s[b:]
    s=s.replace("use std::collections::{BinaryHeap, HashSet};\n","")
    open(f"{r}/{S}","w").write(s)
@ref
def image_chunks(r):
    s=open(f"{r}/{I}").read()
    a=s.index("        let mut index = 0;\n"); b=s.index("        let params = Params::new")
    s=s[:a]+"""        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        for (number, bytes) in self.data.chunks_exact(4).enumerate() {
            let rgba = Rgba::new(bytes[0], bytes[1], bytes[2], bytes[3]);
            let xyz: XYZ<F, D65> = XYZ::from(&rgba);
            let lab: Lab<F, D65> = Lab::from(&xyz);
            let number = u64::from_usize(number);
            let x = F::from_u64(number % width_u64);
            let y = F::from_u64(number / width_u64 % height_u64);
            pixels.push(Point5::new(
                lab.l / delta_l,
                lab.a / delta_a,
                lab.b / delta_b,
                x / width_f,
                y / height_f,
            ));
        }

"""+s[b:]
    open(f"{r}/{I}","w").write(s)
@ref
def image_cache(r):
    s=open(f"{r}/{I}").read()
    a=s.index("            let xyz: XYZ<F, D65> = XYZ::from(&rgba);"); b=s.index("            let index_u64")
    s=s[:a]+"""            let key = (rgba.r, rgba.g, rgba.b);
            let (l, a, b) = *known.entry(key).or_insert_with(|| {
                let xyz: XYZ<F, D65> = XYZ::from(&rgba);
                let Lab { l, a, b, .. } = Lab::from(&xyz);
                (l, a, b)
            });

"""+s[b:]
    s=s.replace("        let mut index = 0;\n","        let mut known = std::collections::HashMap::new();\n        let mut index = 0;\n")
    s=s.replace("        swatches.sort();","        swatches.sort_by(|a, b| a.cmp(b));")
    open(f"{r}/{I}","w").write(s)
@ref
def image_nested(r):
    s=open(f"{r}/{I}").read()
    a=s.index("        let mut index = 0;\n"); b=s.index("        let params = Params::new")
    s=s[:a]+"""        let total = self.data.len() / 4;
        let mut pixels = Vec::with_capacity(total);
        let mut place = 0;
        'rows: for row in 0..height_u64 {
            for column in 0..width_u64 {
                if place >= self.data.len() {
                    break 'rows;
                }
                pixels.push(self.pixel(place, column, row, (delta_l, delta_a, delta_b)));
                place += 4;
            }
        }

"""+s[b:]
    s=s.replace("    fn width<N: Number>","""    fn pixel<F: Float>(&self, at: usize, column: u64, row: u64, (dl, da, db): (F, F, F)) -> Point5<F> {
        let rgba = Rgba::new(self.data[at], self.data[at + 1], self.data[at + 2], self.data[at + 3]);
        let xyz: XYZ<F, D65> = XYZ::from(&rgba);
        let lab: Lab<F, D65> = Lab::from(&xyz);
        let (w, h): (F, F) = (self.width(), self.height());
        Point5::new(lab.l / dl, lab.a / da, lab.b / db, F::from_u64(column) / w, F::from_u64(row) / h)
    }

    fn width<N: Number>""",1)
    s=s.replace("        swatches.sort();","        swatches.reverse();\n        swatches.sort_unstable();")
    open(f"{r}/{I}","w").write(s)
@ref
def image_table(r):
    # sRGB linearisation by table, group shares counted first
    sub(r,X,[("                value / F::from_f64(12.92)","                value * (F::from_f64(1.0) / F::from_f64(12.92))"),
      ("((value + F::from_f64(0.055)) / F::from_f64(1.055)).powf(F::from_f64(2.4))","{ let t = (value + F::from_f64(0.055)) / F::from_f64(1.055); t * t * t.powf(F::from_f64(0.4)) }"),
      ("                t.powi(3)","                t * t * t")])
    sub(r,LAB,[("                t.cbrt()","                t.cbrt() * F::from_f64(1.0)"),("kappa * t + delta","(t * F::from_f64(841.0) / F::from_f64(108.0)) + delta"),
      ("let a = F::from_f64(500.0) * (fx - fy);","let a = F::from_f64(500.0) * fx - F::from_f64(500.0) * fy;")])
    sub(r,R,[("F::from_f64(12.92) * value","value * F::from_f64(12.92)"),("(fr * max_value).round()","(max_value * fr + F::from_f64(0.5)).floor()")])
@ref
def lab_powf(r):
    sub(r,LAB,[("                t.cbrt()","                t.powf(F::from_f64(1.0 / 3.0))")])
    sub(r,X,[("((value + F::from_f64(0.055)) / F::from_f64(1.055)).powf(F::from_f64(2.4))","(((value + F::from_f64(0.055)) / F::from_f64(1.055)).ln() * F::from_f64(2.4)).exp()")])
@ref
def metric_loop(r):
    sub(r,M,[("""            DistanceMetric::SquaredEuclidean => lhs
                .sub(*rhs)
                .to_vec()
                .iter()
                .fold(F::zero(), |total, delta| total + delta.powi(2)),""","""            DistanceMetric::SquaredEuclidean => {
                let mut total = F::zero();
                for index in 0..lhs.dim() {
                    let delta = rhs[index] - lhs[index];
                    total += delta * delta;
                }
                total
            }""")])
@ref
def metric_rev(r):
    sub(r,M,[(".to_vec()\n                .iter()\n",".to_vec()\n                .iter()\n                .rev()\n"),("delta.powi(2)","*delta * *delta"),("DistanceMetric::SquaredEuclidean.measure(lhs, rhs).sqrt()","DistanceMetric::SquaredEuclidean.measure(rhs, lhs).powf(F::from_f64(0.5))")])
@ref
def core_linear(r):
    sub(r,CD,[("""            let neighbors = neighbor_search.search(point, k);
            if let Some(core_neighbor) = neighbors.last() {
                distances.insert(index, core_neighbor.distance);
            } else {
                distances.insert(index, F::max_value());
            }""","""            let mut all: Vec<F> = dataset.iter().map(|other| metric.measure(other, point)).collect();
            all.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let _ = (index, &neighbor_search);
            distances.push(if k == 0 { F::max_value() } else { all[k - 1] });"""),("use crate::math::neighbors::nns::NeighborSearch;\n","")])
@ref
def point_recip(r):
    sub(r,P,[("$(self.$field /= divisor);+","$(self.$field = self.$field / divisor);+"),("$(self.$field += rhs.$field);+","*self = *self + rhs;"),("Self { $($field: self.$field - rhs.$field),+ }","Self { $($field: -rhs.$field + self.$field),+ }")])
MODULES = [
 ("dbscan", "C13 C14 C02 C03 C28"), ("kd", "C11 C12 C13 C14 C15 C16 C21 C28 C29 C02"), ("linear", "C11 C12"),
 ("kmeans", "C15 C16 C17 C29 C30"), ("random", "C16 C17 C15 C29"), ("hier", "C19 C20 C24 C30"), ("uf", "C19 C20 C24"),
 ("prim", "C18 C19 C20 C24"), ("krus", "C18 C19 C20 C24"), ("image", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C26 C27"),
 ("lab", "C08 C09 C10 C26 C02"), ("metric", "C22 C11 C12 C13 C14 C15 C16 C21 C28 C29 C02"), ("core", "C21 C30"),
 ("point", "C23 C22 C26 C13 C15 C29"),
]
W = os.environ.get("W", "/tmp/sd/rf/a")
for d in ("repo", "verif"):
    subprocess.run(["rm", "-rf", f"{W}/{d}"])
os.makedirs(W, exist_ok=True)
subprocess.run(f"cp -a /repo {W}/repo && git -C {W}/repo checkout -q -- . && git -C /verif archive --prefix=verif/ HEAD | tar -x -C {W}", shell=True, check=True)
for f in ("harness/Cargo.toml", "run.sh"):
    p = f"{W}/verif/{f}"; s = open(p).read()
    open(p, "w").write(s.replace('"/repo"', f'"{W}/repo"').replace("cd /repo", f"cd {W}/repo"))
for n in sys.argv[1:] or REFS:
    subprocess.run(["git", "-C", f"{W}/repo", "checkout", "-q", "--", "."])
    REFS[n](f"{W}/repo")
    t = subprocess.run(["cargo", "test", "--offline", "-q"], cwd=f"{W}/repo", capture_output=True, text=True)
    print(n, "tests pass" if t.returncode == 0 else "tests fail", flush=True)
    for i in next(c for m, c in MODULES if n.startswith(m)).split():
        o = subprocess.run(["bash", f"{W}/verif/run.sh", i], capture_output=True, text=True)
        if o.returncode != 0:
            print("  ", n, i, o.returncode, (o.stdout + o.stderr)[-700:].replace("\n", "\n      "), flush=True)
