"""the router: rewrites that keep the behaviour, and some that do not"""
R = "wruster/src/router/mod.rs"
T = "wruster/src/router/trie.rs"
RT = "P24 P25 P01"

ADD = """        let router_handlers = match routes.move_value_out(route.as_bytes()) {
            None => MethodHandlers::new(),
            Some(route_actions) => route_actions,
        };
        router_handlers.actions.borrow_mut()[method as usize] = Some(Arc::new(action));
        routes.add_value(route.as_bytes(), router_handlers);
"""
GETP = """        let method_actions = match routes.get_value_prefix(route.as_bytes()) {
            None => return None,
            Some(actions) => actions,
        };
        method_actions.get_action(method)
"""
MHNEW = """        let mut actions = Vec::<Option<Arc<HttpHandler>>>::new();
        for _ in 0..HttpMethod::get_last() as usize + 1 {
            actions.push(None);
        }
        MethodHandlers {
            actions: AtomicRefCell::new(actions),
        }
"""
GA = """        let actions = self.actions.borrow();
        actions[method as usize]
            .as_ref()
            .map(|action| Arc::clone(action))
"""
NORM = """        let mut normalized = path::PathBuf::new();
        if !self.has_root() {
            return Err("invalid path");
        }
        for component in self.components() {
            match component {
                Component::RootDir => normalized.push(Component::RootDir),
                Component::Prefix(_) => normalized.push(Component::RootDir),
                Component::CurDir => continue,
                Component::ParentDir => {
                    match normalized.parent() {
                        None => {
                            return Err("invalid path");
                        }
                        Some(parent) => {
                            let mut new_parent = path::PathBuf::new();
                            new_parent.push(parent);
                            normalized = new_parent;
                        }
                    };
                }
                Component::Normal(dir) => {
                    normalized.push(dir);
                }
            };
        }
        Ok(normalized)
"""
PARENT = """                    match normalized.parent() {
                        None => {
                            return Err("invalid path");
                        }
                        Some(parent) => {
                            let mut new_parent = path::PathBuf::new();
                            new_parent.push(parent);
                            normalized = new_parent;
                        }
                    };
"""
TGP = """        if key.is_empty() {
            return None;
        }
        let pos = key[0] as usize;
        let children = &self.children;
        let child = match &children[pos] {
            None => return None,
            Some(node) => node,
        };
        child.get_value_prefix(&key[1..], None)
"""
NGP = """        if key.is_empty() {
            if self.value.is_none() {
                return prefix_value;
            }
            return self.value.as_ref();
        }
        let pos = key[0] as usize;
        let children = &self.children;
        let child = match &children[pos] {
            None => {
                if self.value.is_some() {
                    return self.value.as_ref();
                }
                return prefix_value;
            }
            Some(node) => node,
        };
        let next_parent = match &self.value {
            None => prefix_value,
            Some(value) => Some(value),
        };
        child.get_value_prefix(&key[1..], next_parent)
"""
ADDC = """        let next = key[0] as usize;
        if children[next].is_none() {
            let new_node = Node::<T>::new();
            children[next] = Some(new_node);
        };
        let mut child = children[next].take().unwrap();
        child.add_value(&key[1..], value);
        children[next] = Some(child);
"""
EMPTYC = """        let mut children = Vec::new();
        for _ in 0..256 {
            children.push(None);
        }
        children
"""
NMOVE = """        if key.is_empty() {
            return self.value.take();
        }
        let pos = key[0] as usize;
        let children = &mut self.children;
        let child = match &mut children[pos] {
            None => return None,
            Some(node) => node,
        };
        child.move_value_out(&key[1..])
"""
NADD = """        if key.is_empty() {
            self.value = Some(value);
            return;
        }
        Self::add_value_to_children(&mut self.children, key, value);
"""

MUTANTS = [
    ("rt-same-add", "same", RT, [(R, ADD, """        let key = route.as_bytes();
        let handlers = routes.move_value_out(key).unwrap_or_else(MethodHandlers::new);
        {
            let mut actions = handlers.actions.borrow_mut();
            actions[method as usize] = Some(Arc::new(action));
        }
        routes.add_value(key, handlers);
""")]),
    ("rt-same-add-set", "same", RT, [(R, ADD, """        let handlers = if let Some(handlers) = routes.move_value_out(route.as_bytes()) {
            handlers
        } else {
            MethodHandlers::new()
        };
        handlers.set_action(method, action);
        routes.add_value(route.as_bytes(), handlers);
"""), (R, "    fn get_action(&self", """    fn set_action(&self, method: HttpMethod, action: HttpHandler) {
        let slot = method as usize;
        let mut actions = self.actions.borrow_mut();
        actions[slot].replace(Arc::new(action));
    }

    fn get_action(&self""")]),
    ("rt-same-getp", "same", RT, [(R, GETP, """        routes
            .get_value_prefix(route.as_bytes())
            .and_then(|actions| actions.get_action(method))
""")]),
    ("rt-same-getp-q", "same", RT, [(R, GETP, """        let key = route.into_bytes();
        let actions = routes.get_value_prefix(&key)?;
        actions.get_action(method)
""")]),
    ("rt-same-mhnew", "same", RT, [(R, MHNEW, """        let methods = HttpMethod::get_last() as usize + 1;
        let actions = (0..methods).map(|_| None).collect();
        MethodHandlers {
            actions: AtomicRefCell::new(actions),
        }
""")]),
    ("rt-same-mhnew-vec", "same", RT, [(R, MHNEW, """        let actions = vec![None; HttpMethod::get_last() as usize + 1];
        let actions = AtomicRefCell::new(actions);
        MethodHandlers { actions }
""")]),
    ("rt-same-ga", "same", RT, [(R, GA, """        self.actions.borrow()[method as usize].clone()
""")]),
    ("rt-same-ga-match", "same", RT, [(R, GA, """        let index = method as usize;
        match &self.actions.borrow()[index] {
            Some(action) => Some(action.clone()),
            None => None,
        }
""")]),
    ("rt-same-norm-pop", "same", RT, [(R, PARENT, """                    if !normalized.pop() {
                        return Err("invalid path");
                    }
""")]),
    ("rt-same-norm-parent", "same", RT, [(R, PARENT, """                    let parent = normalized.parent().ok_or("invalid path")?;
                    normalized = parent.to_path_buf();
""")]),
    ("rt-same-norm-let", "same", RT, [(R, PARENT, """                    normalized = match normalized.parent() {
                        Some(parent) => path::PathBuf::from(parent),
                        None => return Err("invalid path"),
                    };
""")]),
    ("rt-same-norm-order", "same", RT, [(R, """        let mut normalized = path::PathBuf::new();
        if !self.has_root() {
            return Err("invalid path");
        }
        for component in self.components() {
            match component {
                Component::RootDir => normalized.push(Component::RootDir),
                Component::Prefix(_) => normalized.push(Component::RootDir),
                Component::CurDir => continue,
""", """        if !self.has_root() {
            return Err("invalid path");
        }
        let mut normalized = path::PathBuf::new();
        let mut components = self.components();
        while let Some(component) = components.next() {
            match component {
                Component::RootDir | Component::Prefix(_) => normalized.push(Component::RootDir),
                Component::CurDir => {}
""")]),
    ("rt-same-norm-helper", "same", RT, [(R, NORM, """        if !self.has_root() {
            return Err("invalid path");
        }
        let mut normalized = path::PathBuf::new();
        for component in self.components() {
            step(&mut normalized, component)?;
        }
        Ok(normalized)
"""), (R, "pub(crate) trait Normalize", """fn step(normalized: &mut path::PathBuf, component: Component) -> Result<(), &'static str> {
    match component {
        Component::RootDir | Component::Prefix(_) => normalized.push(Component::RootDir),
        Component::CurDir => (),
        Component::ParentDir => {
            if normalized.parent().is_none() {
                return Err("invalid path");
            }
            normalized.pop();
        }
        Component::Normal(dir) => normalized.push(dir),
    }
    Ok(())
}

pub(crate) trait Normalize""")]),
    ("rt-same-tgp", "same", RT, [(T, TGP, """        let (first, rest) = key.split_first()?;
        let child = self.children[*first as usize].as_ref()?;
        child.get_value_prefix(rest, None)
""")]),
    ("rt-same-tgp-match", "same", RT, [(T, TGP, """        match key {
            [] => None,
            [first, rest @ ..] => match &self.children[usize::from(*first)] {
                Some(child) => child.get_value_prefix(rest, None),
                None => None,
            },
        }
""")]),
    ("rt-same-ngp", "same", RT, [(T, NGP, """        let longest = self.value.as_ref().or(prefix_value);
        if key.is_empty() {
            return longest;
        }
        match &self.children[key[0] as usize] {
            Some(child) => child.get_value_prefix(&key[1..], longest),
            None => longest,
        }
""")]),
    ("rt-same-ngp-loop", "same", RT, [(T, NGP, """        let mut node = self;
        let mut longest = prefix_value;
        let mut rest = key;
        loop {
            if node.value.is_some() {
                longest = node.value.as_ref();
            }
            if rest.is_empty() {
                return longest;
            }
            match &node.children[rest[0] as usize] {
                None => return longest,
                Some(child) => node = child,
            }
            rest = &rest[1..];
        }
""")]),
    ("rt-same-ngp-for", "same", RT, [(T, NGP, """        let mut node = self;
        let mut longest = node.value.as_ref().or(prefix_value);
        for byte in key {
            node = match &node.children[*byte as usize] {
                None => break,
                Some(child) => child,
            };
            if let Some(value) = &node.value {
                longest = Some(value);
            }
        }
        longest
""")]),
    ("rt-same-ngp-split", "same", RT, [(T, NGP, """        let longest = match &self.value {
            Some(value) => Some(value),
            None => prefix_value,
        };
        if let Some((first, rest)) = key.split_first() {
            if let Some(child) = &self.children[*first as usize] {
                return child.get_value_prefix(rest, longest);
            }
        }
        longest
""")]),
    ("rt-same-addc", "same", RT, [(T, ADDC, """        children[key[0] as usize]
            .get_or_insert_with(Node::new)
            .add_value(&key[1..], value);
""")]),
    ("rt-same-addc-match", "same", RT, [(T, ADDC, """        let next = key[0] as usize;
        match &mut children[next] {
            Some(child) => child.add_value(&key[1..], value),
            slot => {
                let mut child = Node::new();
                child.add_value(&key[1..], value);
                *slot = Some(child);
            }
        }
""")]),
    ("rt-same-addc-iflet", "same", RT, [(T, ADDC, """        let (next, rest) = (key[0] as usize, &key[1..]);
        let mut child = children[next].take().unwrap_or_else(Node::new);
        child.add_value(rest, value);
        children[next] = Some(child);
""")]),
    ("rt-same-emptyc", "same", RT, [(T, EMPTYC, """        let mut children = Vec::with_capacity(256);
        children.resize_with(256, || None);
        children
""")]),
    ("rt-same-emptyc-map", "same", RT, [(T, EMPTYC, """        (0..256).map(|_| None).collect()
""")]),
    ("rt-same-emptyc-u8", "same", RT, [(T, EMPTYC, """        let size = u8::MAX as usize + 1;
        let mut children = Vec::new();
        while children.len() < size {
            children.push(None);
        }
        children
""")]),
    ("rt-same-nmove", "same", RT, [(T, NMOVE, """        match key.split_first() {
            None => self.value.take(),
            Some((first, rest)) => {
                let child = self.children[*first as usize].as_mut()?;
                child.move_value_out(rest)
            }
        }
""")]),
    ("rt-same-nadd", "same", RT, [(T, NADD, """        if !key.is_empty() {
            Self::add_value_to_children(&mut self.children, key, value);
        } else {
            self.value.replace(value);
        }
""")]),
    ("rt-ngp-first", "bad", "P24", [(T, """        let next_parent = match &self.value {
            None => prefix_value,
            Some(value) => Some(value),
        };
""", """        let next_parent = match prefix_value {
            None => self.value.as_ref(),
            Some(value) => Some(value),
        };
""")]),
    ("rt-ngp-end", "bad", "P24", [(T, """            if self.value.is_none() {
                return prefix_value;
            }
            return self.value.as_ref();
        }
        let pos""", """            return self.value.as_ref();
        }
        let pos""")]),
    ("rt-ngp-miss", "bad", "P24", [(T, """                if self.value.is_some() {
                    return self.value.as_ref();
                }
                return prefix_value;
""", """                return prefix_value;
""")]),
    ("rt-addc-lost", "bad", "P24", [(T, ADDC, """        let next = key[0] as usize;
        let mut child = Node::<T>::new();
        child.add_value(&key[1..], value);
        children[next] = Some(child);
""")]),
    ("rt-nmove-child", "bad", "P24", [(T, """        let children = &mut self.children;
        let child = match &mut children[pos] {
            None => return None,
            Some(node) => node,
        };
        child.move_value_out(&key[1..])
    }
}
""", """        let mut child = self.children[pos].take()?;
        child.move_value_out(&key[1..])
    }
}
""")]),
    ("rt-pos-mask", "bad", "P24 P01", [(T, "        let pos = key[0] as usize;\n        let children = &self.children;\n        let child = match &children[pos] {\n            None => return None,\n            Some(node) => node,\n        };\n        child.get_value_prefix(&key[1..], None)", "        let pos = (key[0] & 0x7f) as usize;\n        let children = &self.children;\n        let child = match &children[pos] {\n            None => return None,\n            Some(node) => node,\n        };\n        child.get_value_prefix(&key[1..], None)")]),
    ("rt-norm-pop-loose", "bad", "P25 P24", [(R, PARENT, """                    normalized.pop();
""")]),
    ("rt-add-keepfirst", "bad", "P24 P25", [(R, "        router_handlers.actions.borrow_mut()[method as usize] = Some(Arc::new(action));", "        router_handlers.actions.borrow_mut()[method as usize].get_or_insert_with(|| Arc::new(action));")]),
]
